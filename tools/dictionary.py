"""Integer literals and simple constant expressions of the source under test: candidate sizes for the generators."""
import os
import re

NUM = r"(?:0x[0-9a-fA-F_]+|0b[01_]+|[0-9][0-9_]*)(?:_?(?:usize|u8|u16|u32|u64|i32|i64|isize))?"
EXPR = re.compile(rf"(?<![\w.]){NUM}(?:\s*(?:<<|\*|\+|-|/)\s*{NUM})*(?![\w.])")
SUFFIX = re.compile(r"_?(?:usize|u8|u16|u32|u64|i32|i64|isize)$")


def _value(tok):
    tok = SUFFIX.sub("", tok.strip()).replace("_", "")
    return int(tok, 0) if not re.fullmatch(r"0\d+", tok) else int(tok)


def sources(root):
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in ("target", "tests", "benches", "examples", ".git"))
        for f in sorted(files):
            if not f.endswith(".rs"):
                continue
            try:
                with open(os.path.join(d, f), errors="replace") as h:
                    yield h.read()
            except OSError:
                continue


def numbers(root, lo=40, hi=1 << 23, limit=400):
    out = set()
    for text in sources(root):
        text = re.sub(r"//[^\n]*", "", text)
        for m in EXPR.finditer(text):
            parts = re.split(r"(<<|\*|\+|-|/)", m.group(0))
            try:
                vals = [_value(x) for x in parts[::2]]
                v = vals[0]
                for op, w in zip(parts[1::2], vals[1:]):
                    if op == "<<":
                        v = v << w if w < 64 else 0
                    elif op == "*":
                        v *= w
                    elif op == "+":
                        v += w
                    elif op == "-":
                        v -= w
                    elif w:
                        v //= w
            except ValueError:
                continue
            for x in [v] + vals:
                if lo <= x <= hi:
                    out.add(x)
    return sorted(out)[:limit]


STRING = re.compile(r'\bb?"((?:[^"\\\n]|\\.)*)"')
CHAR = r"b?'(?:[^'\\\n]|\\(?:x[0-9a-fA-F]{2}|.))'"
CHARS = re.compile(rf"{CHAR}(?:\s*,\s*{CHAR})*")
ESCAPES = {"n": 10, "r": 13, "t": 9, "0": 0, "\\": 92, '"': 34, "'": 39}


def _unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] != "\\":
            out += s[i].encode()
            i += 1
        elif s[i + 1] == "x":
            out.append(int(s[i + 2:i + 4], 16))
            i += 4
        else:
            out.append(ESCAPES.get(s[i + 1], 63))
            i += 2
    return bytes(out)


def strings(root, longest=12, limit=60):
    """Short byte strings, and lists of characters, outside attributes and tests."""
    out = []
    for text in sources(root):
        text = text.split("#[cfg(test)]")[0]
        text = "\n".join(x for x in text.split("\n") if not re.search(r"cfg|feature|#!?\[|^\s*(//|\*)", x))
        for m in STRING.finditer(text):
            try:
                out.append(_unescape(m.group(1)))
            except (ValueError, IndexError):
                pass
        for m in CHARS.finditer(text):
            try:
                out.append(b"".join(_unescape(re.sub(r"^b?'|'$", "", c)) for c in re.findall(CHAR, m.group(0))))
            except (ValueError, IndexError):
                pass
    return list(dict.fromkeys(t for t in out if 1 <= len(t) <= longest))[:limit]


def words(root):
    return [str(n) for n in numbers(root)] + ["x" + t.hex() for t in strings(root)]


if __name__ == "__main__":
    import sys
    n = numbers(sys.argv[1])
    print(len(n), n)
    print(strings(sys.argv[1]))
