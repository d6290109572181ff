// What generated guest code declares: one line of JSON {id, text} in, one line out.
const fs = require("fs");
const ts = require("/opt/veriftools/node/node_modules/typescript");
const K = ts.SyntaxKind;
function guests(node) {
  return (node.getText().match(/GUEST_\d+/g) || []).map((x) => Number(x.slice(6)));
}
function sig(f) {
  return { n: f.name ? f.name.text : "", p: f.parameters.map((p) => (p.type ? p.type.getText() : "?")), r: f.type ? f.type.getText() : "?" };
}
function item(st) {
  const mods = (st.modifiers || []).filter((m) => m.kind !== K.Decorator).map((m) => m.getText());
  const deco = (st.modifiers || []).filter((m) => m.kind === K.Decorator);
  if (st.kind === K.ExpressionStatement && /^GUEST_\d+;?$/.test(st.getText())) return { k: "guest", n: "", p: [], r: "", g: guests(st) };
  if (st.kind === K.FunctionDeclaration && mods.includes("declare")) {
    const a = deco.length && deco[0].expression.arguments ? deco[0].expression.arguments.map((x) => x.text) : [];
    return { k: "import", ns: a[0] || "", x: a[1] || "", ...sig(st), g: guests(st) };
  }
  if (st.kind === K.FunctionDeclaration && mods.includes("export")) {
    // the guest code must be a statement of the function
    const here = st.body ? st.body.statements.filter((s) => /^GUEST_\d+;?$/.test(s.getText())).length : 0;
    return { k: "export", ...sig(st), g: guests(st), here };
  }
  if (mods.includes("export") || st.kind === K.ExportDeclaration || st.kind === K.ExportAssignment) return { k: "exports otherwise", g: guests(st) };
  return { k: "own", g: guests(st) };
}
const out = [];
for (const line of fs.readFileSync(process.argv[2], "utf8").split("\n")) {
  if (!line) continue;
  const c = JSON.parse(line);
  const src = ts.createSourceFile("guest.ts", c.text, ts.ScriptTarget.Latest, true);
  out.push(JSON.stringify({ id: c.id, items: src.statements.map(item), errors: src.parseDiagnostics.map((d) => String(d.messageText)).slice(0, 3) }));
}
fs.writeFileSync(process.argv[3], out.join("\n") + "\n");
