// Runs the WebAssembly build of the parser: one JSON request per line in, one JSON answer per line out.
const fs = require('fs');
const [, , execJs, wasmFile] = process.argv;
globalThis.require = require;
globalThis.fs = fs;
globalThis.path = require('path');
globalThis.TextEncoder = require('util').TextEncoder;
globalThis.TextDecoder = require('util').TextDecoder;
globalThis.performance ??= require('perf_hooks').performance;
globalThis.crypto ??= require('crypto');
require(execJs);

const go = new Go();
go.exit = code => { process.stderr.write('the module exited with ' + code + '\n'); process.exit(9); };

WebAssembly.instantiate(fs.readFileSync(wasmFile), go.importObject).then(res => {
  go.run(res.instance);
  const rl = require('readline').createInterface({ input: process.stdin, crlfDelay: Infinity });
  rl.on('line', line => {
    const q = JSON.parse(line);
    let a;
    try {
      const f = globalThis[q.fn];
      a = { v: f(...q.args) };
      a.type = typeof a.v;
    } catch (e) {
      a = { type: 'exception', v: String(e).slice(0, 500) };
    }
    // Escape everything beyond ASCII, so that no line break of any kind is in the answer.
    fs.writeSync(1, JSON.stringify(a).replace(/[\u007f-\uffff]/g, c => '\\u' + c.charCodeAt(0).toString(16).padStart(4, '0')) + '\n');
  });
  rl.on('close', () => process.exit(0));
}).catch(e => { process.stderr.write(String(e) + '\n'); process.exit(9); });
