// bundle.js <repository> <output>: the library's own sources, with stand-ins for the packages it imports
"use strict";
const path = require("path");
const { buildSync, build } = require("/opt/veriftools/node/node_modules/esbuild");
const [repo, out] = process.argv.slice(2);
const lib = path.join(repo, "packages/lib");
const shim = (f) => path.join(__dirname, "shims", f);
const pkgs = { "elliptic": "elliptic.js", "bn.js": "bn.js", "snarkjs": "snarkjs.js", "@ethereumjs/util": "ethutil.js", "@zk-kit/incremental-merkle-tree": "tree.js" };
build({
  entryPoints: [path.join(__dirname, "run.js")], bundle: true, platform: "node", format: "cjs", outfile: out, logLevel: "error", target: "node22",
  tsconfigRaw: { compilerOptions: { target: "ES2020" } },
  plugins: [{
    name: "vt",
    setup(b) {
      b.onResolve({ filter: /^[@a-z]/ }, (a) => (pkgs[a.path] ? { path: shim(pkgs[a.path]) } : undefined));
      b.onResolve({ filter: /^(@lib|@src)(\/|$)/ }, (a) => b.resolve("./" + path.join("src", a.path.replace(/^@(lib|src)\/?/, "")), { resolveDir: lib, kind: a.kind }));
      b.onResolve({ filter: /wasmBytes(\.ts|\.js)?$/ }, (a) => ({ path: shim("wasmBytes.js") }));
    }
  }]
}).catch((e) => { console.error(String(e)); process.exit(2); });
