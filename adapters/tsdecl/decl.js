// Service process: parses TypeScript source and answers what it declares, as JSON. Speaks the framing of /verif/harness/wire.
const fs = require("fs");
const ts = require("/opt/veriftools/node/node_modules/typescript");

function declarations(src) {
  const f = ts.createSourceFile("x.ts", src, ts.ScriptTarget.ES2022, true, ts.ScriptKind.TS);
  const out = { errors: [], classes: [], enums: [], imports: [], calls: [], kinds: [] };
  for (const d of f.parseDiagnostics) {
    const { line } = f.getLineAndCharacterOfPosition(d.start);
    out.errors.push(`line ${line + 1}: ${ts.flattenDiagnosticMessageText(d.messageText, " ")}: ${src.split("\n")[line].trim()}`);
  }
  const type = (n) => (n.type ? n.type.getText(f).replace(/\s+/g, "") : "");
  const exported = (n) => (n.modifiers || []).some((m) => m.kind === ts.SyntaxKind.ExportKeyword);
  const number = (e, prev) => {
    if (!e) return prev + 1;
    if (ts.isNumericLiteral(e)) return Number(e.text);
    if (ts.isPrefixUnaryExpression(e) && ts.isNumericLiteral(e.operand)) return e.operator === ts.SyntaxKind.MinusToken ? -Number(e.operand.text) : Number(e.operand.text);
    return null;
  };
  for (const s of f.statements) {
    if (ts.isClassDeclaration(s)) {
      const c = { name: s.name ? s.name.text : "", exported: exported(s), params: [], get: [], set: [], methods: [] };
      for (const m of s.members) {
        if (ts.isConstructorDeclaration(m)) for (const p of m.parameters) c.params.push([p.name.getText(f), type(p)]);
        else if (ts.isGetAccessorDeclaration(m)) c.get.push([m.name.getText(f), type(m)]);
        else if (ts.isSetAccessorDeclaration(m)) c.set.push([m.name.getText(f), m.parameters.length ? type(m.parameters[0]) : ""]);
        else if (ts.isMethodDeclaration(m)) c.methods.push(m.name.getText(f));
      }
      out.classes.push(c);
    } else if (ts.isEnumDeclaration(s)) {
      const e = { name: s.name.text, members: [] };
      let prev = -1;
      for (const m of s.members) {
        prev = number(m.initializer, prev);
        e.members.push([m.name.text, prev === null ? m.initializer.getText(f) : String(prev)]);
      }
      out.enums.push(e);
    } else if (ts.isImportDeclaration(s)) {
      const b = s.importClause && s.importClause.namedBindings;
      if (b && ts.isNamedImports(b)) for (const x of b.elements) out.imports.push(x.name.text);
    }
  }
  const calls = new Set();
  (function walk(n) {
    if (ts.isCallExpression(n) && ts.isIdentifier(n.expression)) calls.add(n.expression.text);
    if (ts.isPropertyAccessExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === "Kind") calls.add("Kind");
    n.forEachChild(walk);
  })(f);
  out.calls = [...calls].sort();
  return out;
}

function read(buf) {
  let got = 0;
  while (got < buf.length) {
    let k = 0;
    try {
      k = fs.readSync(0, buf, got, buf.length - got, null);
    } catch (x) {
      if (x.code === "EAGAIN") continue;
      if (x.code === "EOF") return false;
      throw x;
    }
    if (k === 0) return false;
    got += k;
  }
  return true;
}
function write(b) {
  let done = 0;
  while (done < b.length) {
    try {
      done += fs.writeSync(1, b, done, b.length - done);
    } catch (x) {
      if (x.code !== "EAGAIN") throw x;
    }
  }
}

const head = Buffer.alloc(4);
while (read(head)) {
  const frame = Buffer.alloc(head.readUInt32BE(0));
  if (!read(frame)) break;
  const n = frame.readUInt32BE(1);
  const body = Buffer.from(JSON.stringify(declarations(frame.subarray(5, 5 + n).toString("utf8"))));
  const out = Buffer.alloc(8);
  out.writeUInt32BE(body.length + 4, 0);
  out.writeUInt32BE(body.length, 4);
  write(Buffer.concat([out, body]));
}
