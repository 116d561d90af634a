// usage: node transpile.js DIRECTORY TARGET OUT: every file on its own, through the TypeScript
// compiler, into one script with a loader that knows these files and nothing else.
'use strict';
const fs = require('fs');
const path = require('path');
const ts = require('/opt/veriftools/node/node_modules/typescript');
const [dir, target, out] = process.argv.slice(2);
let s = 'var VH = (function () {\nconst defs = Object.create(null), loaded = Object.create(null);\n';
for (const f of fs.readdirSync(dir).filter((f) => f.endsWith('.ts')).sort()) {
  const r = ts.transpileModule(fs.readFileSync(path.join(dir, f), 'utf8'), {
    compilerOptions: { target: ts.ScriptTarget[target], module: ts.ModuleKind.CommonJS, isolatedModules: true, strict: true },
    reportDiagnostics: true,
  });
  for (const d of r.diagnostics) {
    console.error(f + ': ' + ts.flattenDiagnosticMessageText(d.messageText, '\n'));
    process.exitCode = 1;
  }
  s += `defs[${JSON.stringify('./' + f.slice(0, -3))}] = function (require, exports, module) {\n${r.outputText}\n};\n`;
}
s += `const require = (n) => {
  if (!(n in loaded)) {
    if (!(n in defs)) throw new Error('VH: there is no module ' + n);
    loaded[n] = { exports: {} };
    defs[n](require, loaded[n].exports, loaded[n]);
  }
  return loaded[n].exports;
};
return require('./main');
})();
`;
fs.writeFileSync(out, s);
