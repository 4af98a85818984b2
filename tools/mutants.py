#!/usr/bin/env python3
"""Generates one-site mutants of /repo's sources as patches (to find blind spots of the checks).
mutants.py <outdir> <file>...   -> <outdir>/<file>-<line>-<k>.diff"""
import re, sys, os, difflib
R = "/repo"
OPS = [
    (r"(?<![<=>\-!])<(?![<=])(?=\s)", ["<="]), (r"<=(?!=)", ["<"]), (r"(?<![-=>])>(?![>=])(?=\s)", [">="]), (r">=(?!=)", [">"]),
    (r"(?<!=)==(?!=)", ["!="]), (r"!=(?!=)", ["=="]), (r"===", ["!=="]), (r"!==", ["==="]),
    (r"&&", ["||"]), (r"\|\|(?!\s*\{)(?=\s\S)", ["&&"]),
    (r"(?<=\s)\+(?=\s)", ["-"]), (r"(?<=\s)-(?=\s)", ["+"]), (r"(?<=\s)\*(?=\s)", ["/"]), (r"(?<=\s)/(?=\s)", ["*"]),
    (r"\bchecked_add\b", ["checked_sub"]), (r"\bchecked_sub\b", ["checked_add"]),
    (r"\bchecked_mul\b", ["checked_div"]), (r"\bchecked_div\b", ["checked_mul"]),
    (r"\bsaturating_sub\b", ["wrapping_sub", "saturating_add"]), (r"\bsaturating_add\b", ["wrapping_add"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\bis_empty\(\)", ["len() == 1"]), (r"\bis_some\(\)", ["is_none()"]), (r"\bis_none\(\)", ["is_some()"]),
    (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]),
    (r"!(?=[a-z_])", [""]),
    (r"(?<![\w.])(\d[\d_]*)(?![\w.])", ["+1", "-1"]),
]
def code_lines(path, text):
    """indices of lines outside test modules, comments, imports"""
    out, skip = [], False
    for i, l in enumerate(text):
        if re.search(r"#\[cfg\(test\)\]", l): skip = True
        if skip: continue
        s = l.strip()
        if not s or s.startswith(("//", "use ", "pub use", "import", "#[", "*", "/*", "mod ", "pub mod", "export *", "} from")): continue
        out.append(i)
    return out
def emit(outdir, rel, text, i, new, k, what):
    new_text = text[:i] + new + text[i + 1:]
    d = list(difflib.unified_diff(text, new_text, "a/" + rel, "b/" + rel))
    name = f"{rel.replace('/', '_')}-{i+1:04d}-{k:02d}"
    open(os.path.join(outdir, name + ".diff"), "w").write("".join(d))
    print(name, "|", what)
def main():
    outdir = sys.argv[1]; os.makedirs(outdir, exist_ok=True)
    for rel in sys.argv[2:]:
        text = open(os.path.join(R, rel)).read().splitlines(keepends=True)
        for i in code_lines(rel, text):
            l = text[i]; k = 0
            body = l.split("//")[0] if "://" not in l else l
            for pat, reps in OPS:
                for m in re.finditer(pat, body):
                    for r in reps:
                        if r in ("+1", "-1"):
                            n = int(m.group(1).replace("_", "")) + int(r)
                            if n < 0: continue
                            r = str(n)
                        nl = l[:m.start()] + r + l[m.end():]
                        emit(outdir, rel, text, i, [nl], k, f"{l.strip()}  =>  {nl.strip()}"); k += 1
            s = body.strip()
            # drop a one-line statement
            if (s.endswith(";") and not s.startswith(("let ", "pub ", "const ", "type ", "return", "}", ")", "export", "]", "fn ", "use "))
                    and s.count("(") == s.count(")") and i > 0 and not text[i-1].strip().endswith(("=", "(", ",", "{ ", "."))
                    and not s.startswith(".")):
                emit(outdir, rel, text, i, [], k, f"drop {s}"); k += 1
            # drop a multi-line call statement
            if re.match(r"^\s*[\w:.]+(::<[^>]*>)?\($", l.rstrip("\n")):
                depth, j = 0, i
                while j < len(text):
                    depth += text[j].count("(") - text[j].count(")")
                    if depth == 0: break
                    j += 1
                if text[j].strip().endswith(";"):
                    new_text = text[:i] + text[j+1:]
                    d = list(difflib.unified_diff(text, new_text, "a/" + rel, "b/" + rel))
                    name = f"{rel.replace('/', '_')}-{i+1:04d}-{k:02d}"
                    open(os.path.join(outdir, name + ".diff"), "w").write("".join(d))
                    print(name, "|", "drop call", " ".join(x.strip() for x in text[i:j+1])[:120]); k += 1
            # another error code
            m = re.search(r"ErrorCode::(\w+)", body)
            if m and "=>" not in body:
                r = "InvalidAccountData" if m.group(1) != "InvalidAccountData" else "IncorrectOwner"
                nl = l.replace(m.group(0), "ErrorCode::" + r)
                emit(outdir, rel, text, i, [nl], k, f"{s} => {r}"); k += 1
main()
