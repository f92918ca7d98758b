#!/usr/bin/env python3
"""Mutation campaign (development tool, not a check): plants one-token changes in scratch copies of /repo, keeps those the
existing tests accept, and runs the checks of /verif against each.
    mutate.py <worker-dir> <out.jsonl> <k> <n> [seed]        candidates k mod n
"""
import json, os, random, re, shutil, subprocess, sys
W, OUT, K, N = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
LIMIT = int(os.environ.get("LIMIT", "100000"))
FILES = ["src/ieee.rs", "src/ppc.rs", "src/lib.rs"]
SWAPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![-<=>])<(?![<=\w:&'$ ]|Self)", "<="), (r" < ", " <= "), (r" > ", " >= "), (r"==", "!="), (r"!=", "=="),
         (r"&&", "||"), (r"\|\|", "&&"), (r" \+ ", " - "), (r" - ", " + "), (r"<<", ">>"), (r"(?<!-)>>(?! )", "<<"), (r" \* ", " + "),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+= ", " -= "), (r" -= ", " += "),
         (r" \| ", " & "), (r" & ", " | "), (r"\|=", "="), (r"&=", "="), (r"\bMIN_EXP\b", "MAX_EXP"), (r"\bmin\(", "max("), (r"\bmax\(", "min("),
         (r"Self::PRECISION\b", "(Self::PRECISION - 1)"), (r"S::PRECISION\b", "(S::PRECISION + 1)"), (r"S::PRECISION\b", "(S::PRECISION - 1)"),
         (r"(?<![=!\w])!(?=[\w(])", "")]
ENUMS = {"Loss": ["ExactlyZero", "LessThanHalf", "ExactlyHalf", "MoreThanHalf"],
         "Round": ["NearestTiesToEven", "TowardPositive", "TowardNegative", "TowardZero", "NearestTiesToAway"],
         "Status": ["OK", "INVALID_OP", "DIV_BY_ZERO", "OVERFLOW", "UNDERFLOW", "INEXACT"],
         "Category": ["Infinity", "NaN", "Normal", "Zero"], "Ordering": ["Less", "Equal", "Greater"]}

def code_lines(path):
    t = open(path).read().split("\n")
    stop = next((i for i, l in enumerate(t) if "#[cfg(test)]" in l or l.startswith("#[test]")), len(t))
    return t, stop

def candidates():
    for f in FILES:
        t, stop = code_lines(os.path.join("/repo", f))
        fn = ""
        for i in range(stop):
            l = t[i]
            m = re.search(r"\bfn (\w+)", l)
            if m:
                fn = m.group(1)
            code = l.split("//")[0]
            if not code.strip() or code.strip().startswith(("#", "use ", "pub use", "impl", "mod ", "debug_assert", "assert")) or "fn " in code or "where" == code.strip():
                continue
            seen = set()
            def emit(new, what):
                if new != l and new not in seen:
                    seen.add(new)
                    return [(f, i, fn, l, new, what)]
                return []
            for a, b in SWAPS:
                for m in re.finditer(a, code):
                    yield from emit(l[:m.start()] + b + l[m.end():], a + " -> " + b)
            for e, vs in ENUMS.items():
                for m in re.finditer(e + r"::(\w+)", code):
                    if m.group(1) in vs:
                        v = vs[(vs.index(m.group(1)) + 1) % len(vs)]
                        yield from emit(l[:m.start()] + e + "::" + v + l[m.end():], "enum")
            for m in re.finditer(r"(?<![\w.#])(\d+)(?![\w.x])", code):
                n = int(m.group(1))
                yield from emit(l[:m.start()] + str(n + 1) + l[m.end():], "const+1")
                if n:
                    yield from emit(l[:m.start()] + str(n - 1) + l[m.end():], "const-1")
            m = re.match(r"^(\s*)(\} else )?if (?!let)(.*) \{$", code.rstrip())
            if m:
                yield from emit(m.group(1) + (m.group(2) or "") + "if true || " + m.group(3) + " {", "if true")
                yield from emit(m.group(1) + (m.group(2) or "") + "if false && (" + m.group(3) + ") {", "if false")
            if re.match(r"^\s+[\w.*:\[\]]+( [-+|&]?= |\(|\.).*;$", code.rstrip()) and "let " not in code and "return" not in code:
                yield from emit(re.match(r"\s*", l).group(0) + "{}", "delete")

ORDER = {"fmt": ["C17"], "from_bits": ["C01"], "to_bits": ["C01"], "eq": ["C10"], "partial_cmp": ["C10"], "result_from_nan": ["C06"],
         "binop_result_from_either_nan": ["C06"], "qnan": ["C19"], "snan": ["C19"], "largest": ["C19"], "smallest_normalized": ["C19"],
         "add_r": ["C02", "C06", "C20"], "sub_r": ["C02"], "mul_r": ["C03", "C06", "C20"], "mul_add_r": ["C05", "C06", "C21"], "div_r": ["C04", "C06"],
         "ieee_rem": ["C07", "C06"], "c_fmod": ["C07", "C06"], "round_to_integral": ["C08", "C06"], "next_up": ["C09", "C06"], "from_u128_r": ["C13"],
         "from_str_r": ["C16", "C14"], "to_u128_r": ["C12"], "cmp_abs_normal": ["C10"], "bitwise_eq": ["C10"], "get_exact_inverse": ["C19"],
         "ilogb": ["C18"], "scalbn_r": ["C18"], "frexp_r": ["C18"], "convert_r": ["C11"], "overflow_result": ["C02"],
         "round_away_from_zero": ["C02", "C08"], "normalize": ["C02", "C03"], "from_hexadecimal_string": ["C15", "C16"],
         "from_decimal_string": ["C14", "C16"], "from": ["C21"], "min": ["C10"], "max": ["C10"], "minimum": ["C10"], "maximum": ["C10"],
         "to_i128_r": ["C12"], "from_i128_r": ["C13"], "through_truncation": ["C11", "C15"], "combine": ["C15", "C05"]}
ALL = ["C%02d" % i for i in range(1, 25)]
BASE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()

def run(cmd, cwd, timeout, env=None):
    e = dict(os.environ, RUSTUP_TOOLCHAIN="1.98.1", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1",
             CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return -99, ""

def setup():
    os.makedirs(W, exist_ok=True)
    R, V = W + "/repo", W + "/verif"
    if not os.path.exists(R):
        subprocess.check_call(["cp", "-a", "/repo", R])
    subprocess.check_call(["git", "-C", R, "checkout", "-q", "--", "."])
    if os.path.exists(V):
        shutil.rmtree(V)
    subprocess.check_call(["git", "clone", "-q", "/verif", V])
    s = open(V + "/harness/Cargo.toml").read().replace('"/repo"', '"%s"' % R)
    open(V + "/harness/Cargo.toml", "w").write(s)
    s = open(V + "/check.py").read()
    s = s.replace("    def start_mc(self):\n", "    def start_mc(self):\n        return []\n")
    open(V + "/check.py", "w").write(s)
    return R, V

def main():
    R, V = setup()
    c = list(candidates())
    random.Random(int(sys.argv[5]) if len(sys.argv) > 5 else 1).shuffle(c)
    c = c[:LIMIT]
    done = set()
    if os.path.exists(OUT):
        done = {tuple(json.loads(l)["id"]) for l in open(OUT)}
    for n, (f, i, fn, old, new, what) in enumerate(c):
        if n % N != K or (f, i, new) in done:
            continue
        t = open("/repo/" + f).read().split("\n")
        assert t[i] == old
        t[i] = new
        open(R + "/" + f, "w").write("\n".join(t))
        rec = {"id": [f, i, new], "fn": fn, "old": old.strip(), "new": new.strip(), "what": what}
        rc, o = run(["cargo", "test", "-p", "rustc_apfloat", "--no-fail-fast", "--locked", "--offline", "--", "--test-threads", "4"], R, 90)
        if rc == -99:
            rec["result"] = "hang in tests"
        elif rc != 0:
            rec["result"] = "build" if "could not compile" in o else "tests"
        else:
            rec["result"] = "missed"
            order = ORDER.get(fn, []) 
            if f.endswith("ppc.rs"):
                order = ["C20", "C21", "C01", "C19", "C17"]
            order = order + [p for p in (ALL if len(sys.argv) > 6 else ["C24", "C22", "C23", "C06"]) if p not in order]
            for p in order:
                rc, o = run(["python3", "check.py", p], V, 900)
                if rc == 1:
                    rec["result"] = "caught"
                    rec["by"] = p
                    break
                if rc != 0:
                    rec["result"] = "noanswer"
                    rec["by"] = p
                    rec["out"] = o[-800:]
                    break
        open(R + "/" + f, "w").write("\n".join(open("/repo/" + f).read().split("\n")))
        open(OUT, "a").write(json.dumps(rec) + "\n")

if __name__ == "__main__":
    if W == "count":
        print(len(list(candidates())))
    else:
        main()
