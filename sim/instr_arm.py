"""The same seam for 32-bit ARM (ARM and Thumb-2 state), for gcc's output and for the
hand-written .s files: before each instruction `bl sim_hook` (or sim_hook_mem with the
effective address in r0), everything preserved. Instructions inside an IT block and the
one after an .LPIC label get no seam. Literal loads, adr and cbz/cbnz are rewritten to
equivalents without range limits, because the seams make the code longer."""
import re

LABEL = re.compile(r'^\s*([.\w$]+):')
IT = re.compile(r'^it([te]{0,3})\s', re.I)
MEM = re.compile(r'\[\s*(\w+)\s*(?:,\s*([^\]]+))?\]')
LDST = re.compile(r'^(ldr|str)(b|h|sb|sh|d|t)?(eq|ne|cs|cc|hs|lo|mi|pl|vs|vc|hi|ls|ge|lt|gt|le)?(\.w|\.n)?$')
LDM = re.compile(r'^(ldm|stm)(ia|db|fd|ea|ib|da)?(\.w|\.n)?$')
PCREL = re.compile(r'^(ldr|ldrd)\s+(\w+)\s*,\s*(?:(\w+)\s*,\s*)?(\.L\w+(?:\s*[+-]\s*\d+)?)$')
DIVCALL = re.compile(r'^blx?\s+(__aeabi_u?l?i?div(mod)?|__aeabi_[iu]div0|__u?div(mod)?[sd]i[34]|__u?mod[sd]i3)\b')
DIV = re.compile(r'^[us]div\s+(\w+)\s*,\s*(\w+)(?:\s*,\s*(\w+))?$')
ADR = re.compile(r'^adr\s+(\w+)\s*,\s*([.\w]+)$')
CBZ = re.compile(r'^(cbz|cbnz)\s+(\w+)\s*,\s*([.\w]+)$')


def strip_comment(s):
    i = s.find("@")
    if i < 0 or '"' in s or "%" in s[max(0, i - 1):i + 9]:
        return s.strip()
    if re.match(r'^\s*\.(type|section|size)\b', s):
        return s.strip()
    return s[:i].strip()


def address(op, s):
    """How to put the effective address into r0 after push {r0, lr}, or None."""
    if LDM.match(op):
        m = re.match(r'^\w+(?:\.w|\.n)?\s+(\w+)\s*!?\s*,', s)
        if not m or "db" in op or op.endswith(("da", "ib", "fd", "ea")):
            return None
        rn = m.group(1)
        if rn in ("sp", "r13"):
            return "add r0, sp, #8"
        return None if rn in ("pc", "r15") else f"mov r0, {rn}"
    if not LDST.match(op):
        return None
    m = MEM.search(s)
    if not m:
        return None
    rn, off = m.group(1).lower(), m.group(2)
    if rn in ("pc", "r15", "lr", "r14") or not re.match(r'^(r\d+|sp|ip|fp|sl)$', rn):
        return None
    sp = rn in ("sp", "r13")
    if off is None:
        return "add r0, sp, #8" if sp else f"mov r0, {rn}"
    off = off.strip()
    k = re.match(r'^#(-?\d+)$', off)
    if k:
        n = int(k.group(1)) + (8 if sp else 0)
        if not -250 <= n <= 250:
            return None
        return f"add r0, {rn}, #{n}" if n >= 0 else f"sub r0, {rn}, #{-n}"
    if sp:
        return None
    k = re.match(r'^(r\d+|ip|fp|sl)\s*(,\s*lsl\s*#\d+)?$', off)
    if k:
        return f"add r0, {rn}, {off}"
    return None


def natural(op):
    """log2 of the alignment an access needs where unaligned accesses fault"""
    if LDM.match(op):
        return 2
    m = LDST.match(op)
    return {None: 2, "d": 2, "t": 2, "h": 1, "sh": 1}.get(m.group(2), 0) if m and not m.group(3) else 0


def instrument(text, strict=False):
    out = ["\t.arch armv7-a"]
    code, itleft, nohook, nl = True, 0, False, 0
    for line in text.split("\n"):
        s = strip_comment(line)
        if not s:
            out.append(line)
            continue
        while True:
            m = LABEL.match(s)
            if not m:
                break
            if m.group(1).startswith(".LPIC"):
                out += ["\tpush {lr}", "\tbl sim_hook", "\tldr lr, [sp], #4"]
                nohook = True
            out.append(m.group(0))
            s = s[m.end():].strip()
        if not s or s[0] == "#":
            continue
        if s[0] == ".":
            w = s.split(None, 2)
            if w[0] in (".text", ".section", ".data", ".bss"):
                code = w[0] == ".text" or (w[0] == ".section" and w[1].startswith(".text"))
            if w[0] not in (".arch", ".cpu", ".fpu"):
                out.append("\t" + s)
            continue
        if not code or ";" in s:
            out.append("\t" + s)
            continue
        op = s.split(None, 1)[0].lower()
        if itleft:
            itleft -= 1
            out.append("\t" + s)
            continue
        hook = True
        m = IT.match(s)
        if m:
            itleft = 1 + len(m.group(1))
        if nohook:
            nohook = hook = False
        if hook:
            a = None if m else address(op, s)
            if a is None:
                out += ["\tpush {lr}", "\tbl sim_hook", "\tldr lr, [sp], #4"]
            else:
                out += ["\tpush {r0, lr}", "\t" + a, "\tbl sim_hook_mem" + ("", "2", "4")[natural(op) if strict else 0],
                        "\tpop {r0}", "\tldr lr, [sp], #4"]
        if hook and not IT.match(s):
            # the duration of a division depends on its operands: the simulated clock sees them
            m = DIV.match(s)
            regs = ["r0", "r1", "r2", "r3"] if DIVCALL.match(s) else [r for r in m.groups() if r] if m else []
            for r in regs:
                if r not in ("sp", "pc", "lr"):
                    out += ["\tpush {r0, lr}", f"\tmov r0, {r}", "\tbl sim_hook_mem", "\tpop {r0}", "\tldr lr, [sp], #4"]
        m = PCREL.match(s)
        if m:
            o, r, r2, lab = m.groups()
            out += [f"\tmovw {r}, #:lower16:({lab})", f"\tmovt {r}, #:upper16:({lab})",
                    f"\tldr {r}, [{r}]" if o == "ldr" else f"\tldrd {r}, {r2}, [{r}]"]
            continue
        m = ADR.match(s)
        if m:
            r, lab = m.groups()
            out += [f"\tmovw {r}, #:lower16:({lab})", f"\tmovt {r}, #:upper16:({lab})"]
            continue
        m = CBZ.match(s)
        if m:
            o, r, lab = m.groups()
            nl += 1
            inv = "cbnz" if o == "cbz" else "cbz"
            out += [f"\t{inv} {r}, .Lsimcb{nl}", f"\tb.w {lab}", f".Lsimcb{nl}:"]
            continue
        out.append("\t" + s)
    return "\n".join(out) + "\n"
