"""The table of memory operands of a program, from its disassembly (objdump).

Records of 12 bytes: offset u32, displacement i32, base, index, scale, kind.
kind & 7 is 1 for a memory operand and 2 for a division (base is the divisor's
register); kind & 8 says that the next record is of the same instruction.
Left out: operands with no register, and stack pushes and calls, whose addresses
follow from the instructions executed."""
import re, struct, subprocess

R = {}
for i, n in enumerate("a c d b".split()):
    for f in ("r%sx", "e%sx", "%sx", "%sl", "%sh"):
        R[f % n] = i
for i, n in enumerate(("sp", "bp", "si", "di"), 4):
    for f in ("r" + n, "e" + n, n, n + "l"):
        R[f] = i
for i in range(8, 16):
    for f in ("r%d", "r%dd", "r%dw", "r%db"):
        R[f % i] = i
SKIP = ("lea", "nop", "prefetch", "endbr", "data16", "cs nop")
MEM = re.compile(r"\[([^\]]*)\]")


def operand(t):
    base, index, scale, disp = 16, 16, 1, 0
    for sign, part in re.findall(r"([+-]?)([^+-]+)", t):
        if "*" in part:
            r, k = part.split("*")
            if r not in R:
                if r in ("riz", "eiz"):
                    continue
                return None
            index, scale = R[r], int(k, 0)
        elif part in R:
            if base == 16:
                base = R[part]
            else:
                index = R[part]
        elif part == "rip":
            return None
        else:
            disp = int(part, 0) * (-1 if sign == "-" else 1)
    if base == 16 and index == 16:
        return None
    disp &= 0xffffffffffffffff
    if disp >= 1 << 63:
        disp -= 1 << 64
    if disp >= 1 << 31:
        disp -= 1 << 32
    return base, index, scale, disp


def table(binary):
    out = bytearray()
    p = subprocess.Popen(["objdump", "-d", "-M", "intel", "--no-show-raw-insn", binary],
                         stdout=subprocess.PIPE, text=True)
    for line in p.stdout:
        a, _, ins = line.partition(":\t")
        if not ins or ("[" not in ins and "div " not in ins):
            continue
        ins = ins.strip()
        if ins.startswith(SKIP):
            continue
        rec = []
        for m in MEM.findall(ins):
            o = operand(m)
            if o:
                rec.append(o + (1,))
        w = ins.split()
        if w[0] in ("div", "idiv"):
            rec.append((R.get(w[1], 16), 16, 1, 0, 2))
        for k, (b, i, s, d, kind) in enumerate(rec):
            out += struct.pack("<IiBBBB", int(a, 16), d, b, i, s, kind | (8 if k + 1 < len(rec) else 0))
    if p.wait():
        raise RuntimeError("objdump failed")
    return bytes(out)


if __name__ == "__main__":
    import sys
    open(sys.argv[2], "wb").write(table(sys.argv[1]))
