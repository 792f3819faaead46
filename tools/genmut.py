"""python3 tools/genmut.py SEED COUNT > FILE: a random sample of small edits of /repo's sources, for tools/mutate.py.

Edits are made per line: an operator, a literal, a condition or a method is replaced, or a statement is dropped.  Most of
them break something; the ones no check reports are read by hand (equivalent, outside every property, or a gap)."""
import random, re, sys
FILES = ["core/src/ast.rs", "core/src/bundle.rs", "core/src/bytecode.rs", "core/src/decode.rs", "core/src/definition.rs", "core/src/encode.rs", "core/src/io.rs",
         "core/src/mapper.rs", "core/src/lib.rs", "core/src/str.rs", "decompiler/src/lib.rs", "decompiler/src/print.rs", "decompiler/src/files.rs"]
OPS = [(r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" && ", " || "), (r" \|\| ", " && "),
       (r" \+ ", " - "), (r" - ", " + "), (r"\+= ", "-= "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
       (r"\.first\(", ".last("), (r"\.last\(", ".first("), (r"is_some\(", "is_none("), (r"is_none\(", "is_some("), (r"if !", "if "), (r"\bif (?!let|!)", "if !"),
       (r"\.rev\(\)", ""), (r"\.low\b", ".high"), (r"\.high\b", ".low"), (r"\.all\(", ".any("), (r"\.any\(", ".all("), (r"\bdepth \+ 1", "depth"), (r"Some\(ParentOp::\w+\)", "None"),
       (r"::<u32,", "::<u16,"), (r"::<u16>", "::<u32>"), (r"\.is_empty\(\)", ".is_empty().not_()"), (r"i32", "i64"), (r"u8\b", "u16"), (r"&\[\]", "type_args"),
       (r"\bbreak\b", "continue"), (r"\blhs\b", "rhs"), (r"\brhs\b", "lhs"), (r"\btrue_\b", "false_"), (r"\bparent\b", "name"), (r"\bstart\b", "exit"), (r"\bexit\b", "start"),
       (r"\bprologue\b", "epilogue"), (r"\bepilogue\b", "prologue"), (r"\bposition\b", "target"), (r"\btarget\b", "position"), (r"Some\(block\)", "block"), (r", block\)", ", None)"),
       (r"\bnames\b", "strings"), (r"\bstrings\b", "names"), (r"\bfields\b", "overrides"), (r"\bparameters\b", "unk2"), (r"\bflags\b", "size")]
r = random.Random(int(sys.argv[1]))
out = []
for f in FILES:
    try:
        lines = open("/repo/" + f).read().split("\n")
    except OSError:
        continue
    end = next((i for i, l in enumerate(lines) if l.startswith("#[cfg(test)]")), len(lines))
    for i in range(end):
        l = lines[i]
        s = l.strip()
        if not s or s.startswith(("//", "use ", "#[", "pub mod", "mod ", "where", "impl", "pub trait", "pub enum", "pub struct", "fn ", "pub fn", "assert")):
            continue
        if s.endswith(";") and not s.startswith(("let ", "return", "pub ", "type ", "const ")):
            out.append((f, i, "// dropped"))
        for p, n in OPS:
            for m in re.finditer(p, l):
                out.append((f, i, l[:m.start()] + n + l[m.end():]))
        for m in re.finditer(r"\b\d+(?=u8|u16|u32|u64|\b)", l):
            out.append((f, i, l[:m.start()] + str(int(m.group()) + 1) + l[m.end():]))
        for m in re.finditer(r'"[^"]+"', l):
            t = m.group()
            if len(t) > 3:
                out.append((f, i, l[:m.start()] + '"' + t[2:] + l[m.end():] if t[1] != "{" else l[:m.start()] + t[:-1] + '."' + l[m.end():]))
r.shuffle(out)
seen = {}
pick = []
for f, i, n in out:
    if seen.get((f, i), 0) < 2:
        seen[f, i] = seen.get((f, i), 0) + 1
        pick.append((f, i, n))
print("M = [")
for f, i, n in pick[:int(sys.argv[2])]:
    print("  (%r, 'bug', [(%r, %d, %r)])," % ("%s:%d" % (f.split("/")[-1] if "core" in f else "d" + f.split("/")[-1], i + 1), f, i, n))
print("]")
