// usage: node tscheck.js typescript-dir target old|default file...
// 'old' selects the declarations without SharedArrayBuffer, which is what compilers before
// TypeScript 5.7 made of `DataView.buffer` and what the generated code was written for.
// Type-checks the files under strict mode; prints one line per problem.
const [, , tsdir, target, lib, ...files] = process.argv;
const ts = require(tsdir);
const options = {
  strict: true,
  noEmit: true,
  target: ts.ScriptTarget[target],
  module: ts.ModuleKind.CommonJS,
  moduleResolution: ts.ModuleResolutionKind.Node10,
  types: [],
  skipLibCheck: true,
  ignoreDeprecations: '5.0',
};
if (lib === 'old') {
  options.lib = ['es5', 'es2015', 'es2016', 'es2017.object', 'es2017.string', 'es2018.promise', 'es2019.array', 'es2019.object', 'es2019.string', 'es2020.bigint', 'dom'].map((x) => `lib.${x}.d.ts`);
}
const program = ts.createProgram(files, options);
const all = ts.getPreEmitDiagnostics(program);
let n = 0;
for (const d of all) {
  n += 1;
  if (n > 60) break;
  const where = d.file ? `${d.file.fileName}:${d.file.getLineAndCharacterOfPosition(d.start).line + 1}` : '';
  const line = d.file ? d.file.text.split('\n')[d.file.getLineAndCharacterOfPosition(d.start).line] : '';
  console.log(`${where}: TS${d.code} ${ts.flattenDiagnosticMessageText(d.messageText, ' / ')} [${line.trim().slice(0, 300)}]`);
}
console.log(`checked ${program.getSourceFiles().filter((f) => !f.isDeclarationFile).length} problems ${all.length}`);
