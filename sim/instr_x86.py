"""Puts a simulator seam in front of every instruction of gcc's x86-64 output.

The instructions of the shipped code generation are kept as they are; before each of
them a call of sim_hook (or, when it has a memory operand, of sim_hook_mem with the
effective address in %rax) is inserted. Flags, registers and the 128-byte red zone
are preserved by the seam."""
import re

LABEL = re.compile(r'^\s*(?:[.\w$]+|"[^"]+"):')
MEM = re.compile(r'(%[a-z]s:)?([-+.\w@$]*)\(([^()]*)\)')
DIV = re.compile(r'^i?div([bwlq])\s+%(\w+)$')
NOMEM = ("lea", "nop", "jmp", "call", "prefetch", "endbr")


def instrument(text):
    out = []
    code = True
    for line in text.split("\n"):
        s = line.strip()
        if not s or s[0] == "#":
            out.append(line)
            continue
        while True:
            m = LABEL.match(s)
            if not m:
                break
            out.append(m.group(0))
            s = s[m.end():].strip()
        if not s or s[0] == "#":
            continue
        if s[0] == ".":
            w = s.split(None, 2)
            if w[0] in (".text", ".section", ".data", ".bss"):
                code = w[0] == ".text" or (w[0] == ".section" and w[1].startswith(".text"))
            out.append("\t" + s)
            continue
        if not code:
            out.append("\t" + s)
            continue
        op = s.split(None, 1)[0]
        if op.startswith("endbr"):
            out.append("\t" + s)
            continue
        mem = None
        if ";" not in s and not op.startswith(NOMEM):
            ms = list(MEM.finditer(s))
            if len(ms) == 1 and not ms[0].group(1):
                mem = ms[0]
        if mem is not None:
            disp, regs = mem.group(2), mem.group(3)
            parts = [p.strip() for p in regs.split(",")]
            if "@" in disp and "@tpoff" not in disp:
                mem = None      # read of the offset table
            elif any(p.startswith(("%x", "%y", "%z", "%e")) for p in parts):
                mem = None      # vector index or 32-bit address
            elif "%rsp" in parts[1:]:
                mem = None
            elif parts[0] == "%rsp":
                disp = "136+" + disp if disp else "136"
        if op.rstrip("bwlq") in ("div", "idiv"):
            # the duration of a division depends on its operands: the simulated clock sees them
            m = DIV.match(s)
            w = m.group(1) if m else "q"
            movs = {"q": ["", "movq %rdx, %rax"], "l": ["movl %eax, %eax", "movl %edx, %eax"], "w": ["movzwl %ax, %eax", "movzwl %dx, %eax"], "b": ["movzwl %ax, %eax"]}[w]
            if m and w in "lq" and m.group(2) not in ("rax", "rdx", "eax", "edx", "rsp"):
                movs.append(f"mov{w} %{m.group(2)}, %{'eax' if w == 'l' else 'rax'}")
            out.append("\tleaq -128(%rsp), %rsp")
            out.append("\tpushq %rax")
            for mv in movs:
                out += ["\t" + mv, "\tcall sim_hook_mem"]
            out.append("\tpopq %rax")
            out.append("\tleaq 128(%rsp), %rsp")
        out.append("\tleaq -128(%rsp), %rsp")
        if mem is None:
            out.append("\tcall sim_hook")
        else:
            out.append("\tpushq %rax")
            out.append(f"\tleaq {disp}({regs}), %rax")
            out.append("\tcall sim_hook_mem")
            out.append("\tpopq %rax")
        out.append("\tleaq 128(%rsp), %rsp")
        out.append("\t" + s)
    return "\n".join(out) + "\n"
