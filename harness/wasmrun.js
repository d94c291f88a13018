// Runs WASI modules one after another; one JSON request per line, one JSON answer per line.
'use strict'
const fs = require('fs')
const { WASI } = require('wasi')
const readline = require('readline')
const rl = readline.createInterface({ input: process.stdin })
process.removeAllListeners('warning')
process.on('warning', () => {})
function one(q) {
  const out = fs.openSync(q.out, 'w'), err = fs.openSync(q.err, 'w')
  const inp = fs.openSync(q.in || '/dev/null', 'r')
  const a = { rc: null, error: null, exports: null, imports: null }
  try {
    const bin = fs.readFileSync(q.wasm)
    const mod = new WebAssembly.Module(bin)
    a.exports = WebAssembly.Module.exports(mod).map(e => [e.name, e.kind])
    a.imports = WebAssembly.Module.imports(mod).map(e => [e.module, e.name, e.kind])
    if (!q.norun) {
      const wasi = new WASI({ version: 'preview1', args: q.args, env: q.env || {}, preopens: q.preopens || {},
                              stdin: inp, stdout: out, stderr: err, returnOnExit: true })
      const imp = wasi.getImportObject()
      const inst = new WebAssembly.Instance(mod, imp)
      if (q.call) {
        wasi.initialize && 0
        a.rc = 0
        a.results = q.call.map(([n, ...args]) => { const r = inst.exports[n](...args); return typeof r === 'bigint' ? r.toString() + 'n' : r })
      } else {
        a.rc = wasi.start(inst)
      }
    }
  } catch (e) {
    a.error = String(e && e.message || e).slice(0, 400)
    a.kind = e && e.constructor && e.constructor.name
  }
  fs.closeSync(out); fs.closeSync(err); fs.closeSync(inp)
  return a
}
rl.on('line', l => { process.stdout.write(JSON.stringify(one(JSON.parse(l))) + '\n') })
