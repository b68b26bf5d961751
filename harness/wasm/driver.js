// driver.js MODULE WASM_EXEC: loads the playground's module and answers each
// line of standard input, a JSON string, with one line of JSON.
const fs = require('fs');
globalThis.require = require;
globalThis.fs = fs;
globalThis.path = require('path');
globalThis.TextEncoder = require('util').TextEncoder;
globalThis.TextDecoder = require('util').TextDecoder;
globalThis.performance ??= require('perf_hooks').performance;
globalThis.crypto ??= require('crypto').webcrypto;
require(process.argv[3]);
const go = new globalThis.Go();
globalThis.notifyBrowser = () => {
	const lines = require('readline').createInterface({ input: process.stdin, crlfDelay: Infinity });
	lines.on('line', (line) => {
		let answer;
		try {
			const got = globalThis.parseAQL(JSON.parse(line));
			answer = { value: got === undefined ? 'undefined' : got };
		} catch (e) {
			answer = { thrown: String(e) };
		}
		fs.writeSync(1, JSON.stringify(answer) + '\n');
	});
	lines.on('close', () => process.exit(0));
};
WebAssembly.instantiate(fs.readFileSync(process.argv[2]), go.importObject).then((m) => go.run(m.instance)).then(() => {
	process.stderr.write('the module ended\n');
	process.exit(3);
});
