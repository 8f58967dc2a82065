#!/usr/bin/env python3
"""Development tool: writes one diff per single-site mutation of /repo's non-test sources to /tmp/edits/mut/.
usage: mutate.py [file substring...]"""
import os, re, subprocess, sys, difflib, shutil
OUT = "/tmp/edits/mut"
SKIP = ("testing", "mock_querier", "integration_test", "env_setup", "cw-tests", "/examples/", "/target/")
files = subprocess.check_output(["git", "-C", "/repo", "ls-files", "*.rs"], text=True).split()
files = [f for f in files if not any(s in f for s in SKIP)]
OPS = [
    (r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < "]), (r" >= ", [" > "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" + ", " / "]), (r" / ", [" * "]), (r" % ", [" / "]),
    (r" << ", [" >> "]), (r" >> ", [" << "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"\[0\]", ["[1]"]), (r"\[1\]", ["[0]"]), (r"\[0u?s?i?z?e?\]", []),
    (r"\b0\.\.", ["1.."]), (r"(?<![\w.\[\"])(\d+)(?![\w.\]\"])", ["+1"]), (r"(?<![\w.\[\"])(\d+)(u8|u32|u64|u128|usize)\b", ["+1s"]),
    (r"if !", ["if "]), (r"\bif (?!let\b|!)", ["if !"]),
    (r"\.min\(", [".max("]), (r"\.max\(", [".min("]),
    (r"checked_add", ["checked_sub", "saturating_add"]), (r"checked_sub", ["saturating_sub", "checked_add"]), (r"checked_mul", ["checked_add"]), (r"saturating_\w+", []),
    (r"Order::Ascending", ["Order::Descending"]), (r"\.rev\(\)", [""]), (r"\.take\(limit\)", [""]),
    (r"\.unwrap_or\([^()]*(\([^()]*\))?[^()]*\)", [".unwrap_or_default()"]),
    (r"Some\(([a-z_.]+(\([^()]*\))?)\)", ["None"]),
    (r"info\.sender", ["env.contract.address"]), (r"env\.contract\.address", ["info.sender"]),
    (r"offer_", ["ask_"]), (r"ask_", ["offer_"]),
    (r"token_code_id", ["pair_code_id"]), (r"pair_code_id", ["token_code_id"]),
    (r"commission", ["spread"]), (r"spread_amount", ["commission_amount", "return_amount"]), (r"return_amount", ["offer_amount", "spread_amount"]),
    (r"reply_on_success|reply_always|reply_on_error", ["reply_always"]), (r"ReplyOn::Success", ["ReplyOn::Always", "ReplyOn::Never"]),
    (r"addr_validate\(([^()]*(\([^()]*\))?[^()]*)\)\?", ["ADDR"]),
    (r"\.first\(\)", [".last()"]), (r"\.last\(\)", [".first()"]),
    (r"is_zero\(\)", ["is_zero().eq(&false)"]),
    (r"Uint128::zero\(\)", ["Uint128::one()"]), (r"\bvec!\[\]", []),
    (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]), (r"\.is_empty\(\)", [".is_empty().eq(&false)"]),
    (r"\.ceil\w*", []), (r"transfer_from", []),
]
ARGS = re.compile(r"\(((?:&mut |&)?[\w.]+(?:\.clone\(\))?), ((?:&mut |&)?[\w.]+(?:\.clone\(\))?)\)")
STR = re.compile(r'"([a-z_ ]+)"')
n = 0
want = sys.argv[1:]
shutil.rmtree(OUT, ignore_errors=True)
os.makedirs(OUT)
seen = set()


def emit(f, lines, i, new, tag, upto=None):
    global n
    upto = i + 1 if upto is None else upto
    out = lines[:i] + ([new] if new is not None else []) + lines[upto:]
    if out == lines or (f, i, new, upto) in seen:
        return
    seen.add((f, i, new, upto))
    n += 1
    d = "".join(difflib.unified_diff(lines, out, "a/" + f, "b/" + f))
    nm = f.replace("contracts/", "").replace("packages/", "").replace("/src/", "-").replace(".rs", "")
    open("%s/%s-%03d-%s.diff" % (OUT, nm, i + 1, "%s%d" % (tag, n)), "w").write(d)


for f in files:
    if want and not any(w in f for w in want):
        continue
    lines = open("/repo/" + f).read().splitlines(True)
    if any("mod test" in l or "cfg(test)" in l and i + 1 < len(lines) and "mod" in lines[i + 1] and "{" in lines[i + 1] for i, l in enumerate(lines)):
        end = min([i for i, l in enumerate(lines) if "cfg(test)" in l and i + 1 < len(lines) and "{" in lines[i + 1]] or [len(lines)])
    else:
        end = len(lines)
    for i, l in enumerate(lines[:end]):
        st = l.strip()
        if not st or st.startswith(("//", "use ", "#", "pub mod", "mod ", "const CONTRACT", "///")):
            continue
        code = l.split("//")[0]
        for pat, reps in OPS:
            for m in re.finditer(pat, code):
                for r in reps:
                    t = r
                    if r == "+1":
                        t = str(int(m.group(1)) + 1)
                    if r == "+1s":
                        t = str(int(m.group(1)) + 1) + m.group(2)
                    if r == "ADDR":
                        a = m.group(1)
                        t = "cosmwasm_std::Addr::unchecked(%s)" % (a)
                    emit(f, lines, i, l[:m.start()] + t + l[m.end():], "op")
        for m in ARGS.finditer(code):
            emit(f, lines, i, l[:m.start()] + "(%s, %s)" % (m.group(2), m.group(1)) + l[m.end():], "sw")
        if not st.startswith(("#", "pub fn", "fn ")):
            for m in STR.finditer(code):
                emit(f, lines, i, l[:m.start()] + '"%sx"' % m.group(1) + l[m.end():], "st")
        # a whole statement removed
        if st.endswith(";") and not st.startswith(("let ", "pub ", "use ", "const ", "}", ")", ".", "return")):
            p = lines[i - 1].strip()
            if p.endswith((";", "{", "}")) or not p or p.startswith("//"):
                emit(f, lines, i, None, "del")
        # a multi-line statement removed: starts here, ends at a line of the same indentation that closes it
        if re.match(r"[\w:.&]+(\(|!\()$|if .*\{$|for .*\{$|[\w.]+$", st) and not st.startswith("}"):
            ind = len(l) - len(l.lstrip())
            for j in range(i + 1, min(i + 40, end)):
                if len(lines[j]) - len(lines[j].lstrip()) <= ind and lines[j].strip() and not lines[j].strip().startswith("."):
                    if lines[j].strip() in (")?;", ");", "}"):
                        emit(f, lines, i, None, "del", j + 1)
                    break
        # a chained call removed
        if re.match(r"\.[a-z_]+\(.*\)\??;?$", st):
            emit(f, lines, i, re.sub(r"\S.*\n", "", l) + (";\n" if st.endswith(";") else "\n"), "ch")
print(n)
