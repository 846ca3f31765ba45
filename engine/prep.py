#!/usr/bin/env python3
"""Turn the definitions of a few functions into declarations, so that the executor models them itself,
and drop debug/attribute noise.  usage: prep.py IN.ll OUT.ll ; prints the intercepted symbols."""
import re, sys
PAT = [
    r"9panicking9panic_fmt$", r"9panicking18panic_nounwind_fmt$", r"9panicking13panic_display",
    r"5alloc18handle_alloc_error$", r"7process5abort$", r"3sys.*14abort_internal$", r"9panicking11begin_panic",
    r"^_RNvXs\w*_NtCs\w+_4core3fmteNtB\w+_5Debug3fmt$",
    # std's SipHash: modelled like harness/stubs/foldhash
    r"4core4hash3sip.*6Hasher(5write|9write_str|6finish)(C|$)",
]
def main(i, o):
    pats = re.compile("|".join(f"(?:{p})" for p in PAT))
    name = re.compile(r'@("?)([^("]+)\1\(')
    hit, skip = [], False
    with open(i) as f, open(o, "w") as w:
        for l in f:
            if skip:
                if l.startswith("}"): skip = False
                continue
            if l.startswith("define "):
                m = name.search(l); n = m.group(2)
                if pats.search(n):
                    hit.append(n); skip = True
                    d = l.rstrip(); d = d[:d.rindex("{")].rstrip()
                    d = re.sub(r"^define\s+((internal|private|hidden|dso_local|noundef|linkonce_odr|weak_odr|available_externally|protected|unnamed_addr|local_unnamed_addr)\s+)*", "declare ", d)
                    d = re.sub(r"\s+(unnamed_addr|local_unnamed_addr)\b", "", d)
                    d = re.sub(r"\s+#\d+(\s.*)?$", "", d); d = re.sub(r"\s+personality .*$", "", d)
                    w.write(d + "\n"); continue
            w.write(l)
    print("\n".join(hit))
main(sys.argv[1], sys.argv[2])
