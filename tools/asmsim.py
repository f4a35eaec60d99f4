"""Rewrites compiler-generated assembly so that every access to shared memory, every fence, spin hint and call into code
   that is not simulated is announced to the simulator first (dsim/tso.cpp).  x86-64, AT&T syntax.
   asmsim.py IN.s OUT.s"""
import re, sys
PREF = {"lock", "rep", "repz", "repnz", "repe", "repne", "notrack", "data16", "bnd"}
NOACC = re.compile(r"^(lea[bwlq]?|nop[wlq]?|prefetch\w*|clflush\w*|cldemote|endbr64|ud2|hlt|leave|cltq|cqto|cltd|cwtl|cqo|cdq|cbw|cwde|cdqe|ret|retq)$")
READLAST = re.compile(r"^(cmp[bwlq]?|test[bwlq]?|v?u?comis[sd]|bt[wlq]?|push[wlq]?|i?div[bwlq]?|i?mul[bwlq]?|fld\w*|fild\w*|fadd\w*|fsub\w*|fmul\w*|fdiv\w*|ldmxcsr|fldcw)$")
STORE = re.compile(r"^(mov[bwlq]?|movabs[q]?|movnti[lq]?|set\w+|movss|movsd|movd|movap[sd]|movup[sd]|movdq[au]|mov[lh]p[sd]|movnt\w+|pop[wlq]?)$")
RMW = re.compile(r"^(add|sub|adc|sbb|and|or|xor|inc|dec|neg|not|shl|sal|shr|sar|rol|ror|rcl|rcr|xadd|cmpxchg|bts|btr|btc|shld|shrd)[bwlq]?$")
SSE = {"movss": 4, "movsd": 8, "movd": 4, "movlps": 8, "movhps": 8, "movlpd": 8, "movhpd": 8}
R8 = {"al", "bl", "cl", "dl", "ah", "bh", "ch", "dh", "sil", "dil", "bpl", "spl"}
def regsize(r):
    r = r.lstrip("%")
    if r.startswith("xmm"): return 16
    if r in R8 or re.fullmatch(r"r\d+b", r): return 1
    if re.fullmatch(r"r\d+w", r) or r in ("ax", "bx", "cx", "dx", "si", "di", "bp", "sp"): return 2
    if re.fullmatch(r"r\d+d", r) or re.fullmatch(r"e[a-d]x|e[sd]i|e[bs]p", r): return 4
    if r.startswith("r"): return 8
    return 0
def split_ops(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c == "(": d += 1
        if c == ")": d -= 1
        if c == "," and d == 0: out.append(cur.strip()); cur = ""
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out
def is_mem(o): return not (o.startswith("$") or o.startswith("%") or o.startswith("*"))
LOAD, ST, RM, LOCKED, FENCE, PAUSE, OUT = range(7)
class Rewriter:
    def __init__(self, text):
        self.lines = text.split("\n"); self.out = []
        self.defined = set(re.findall(r"^([\w.$]+):", text, re.M)); self.pend = []
    def hook(self, kind, size=0, mem=None):
        code = kind << 8 | size
        self.out += ["\tpushq %rdi"] + (["\tleaq " + mem + ", %rdi"] if mem else ["\tmovl $0, %edi"]) + ["\tpushq %rsi", "\tmovl $%d, %%esi" % code, "\tcall dsim_mem_stub", "\tpopq %rsi", "\tpopq %rdi"]
    def stmt(self, s):
        s = s.strip()
        while True:
            m = re.match(r"^([\w.$]+):\s*", s)
            if not m: break
            self.out.append(m.group(1) + ":"); s = s[m.end():]
        if not s: return
        if s.startswith("."): self.out.append("\t" + s); return
        toks = s.split(None, 1); mn = toks[0]; rest = toks[1] if len(toks) > 1 else ""
        if mn in PREF:
            self.pend.append(mn)
            if rest: self.stmt(rest)
            return
        pend, self.pend = self.pend, []
        pre = "\t" + "".join(p + " " for p in pend)
        self.insn(mn, split_ops(rest), pend); self.out.append(pre + s)
    def insn(self, mn, ops, pend):
        if mn in ("mfence",): return self.hook(FENCE)
        if mn == "pause" or (mn == "nop" and "rep" in pend): return self.hook(PAUSE)
        if mn in ("call", "callq", "jmp", "jmpq") or re.match(r"^(j[a-z]+|loop\w*)$", mn):
            t = ops[0].split("@")[0] if ops else ""
            if re.match(r"^(\.L|\d+[bf]$)", t): return
            if mn.startswith("j") and (t.startswith("*") or t in self.defined or t.startswith(".")): return
            if t in self.defined or (re.match(r"^_ZNK?4dsim", t) and not re.match(r"^_ZN4dsim\d+(spawn|join|thr|tso|sleep|yield)", t)) or t == "__stack_chk_fail": return
            return self.hook(OUT)
        if NOACC.match(mn): return
        if mn in ("xchg", "xchgb", "xchgw", "xchgl", "xchgq") or "lock" in pend or mn.startswith("cmpxchg16"):
            m = [o for o in ops if is_mem(o)]
            if mn.startswith("xchg") and not m: return
            if not m or re.search(r"%[rf]sp|%fs:|%gs:", m[0]): return self.hook(LOCKED)
            return self.hook(LOCKED, 0, m[0])
        if any(p.startswith("rep") for p in pend) or re.match(r"^(movs|stos|lods|scas|cmps)[bwlq]$", mn) and not ops: return self.hook(OUT)
        m = [o for o in ops if is_mem(o)]
        if not m: return
        m = m[0]
        if re.search(r"%rsp|%esp|%fs:|%gs:", m): return
        last = ops[-1] == m and len([o for o in ops if is_mem(o)]) == 1
        if not last or READLAST.match(mn): return self.hook(LOAD, 0, m)
        size = SSE.get(mn, 0)
        if not size and mn.startswith("set"): size = 1
        if not size and re.match(r"^mov(ap|up|dq|nt)", mn) and not mn.startswith("movnti"): size = 16
        if not size:
            for o in ops:
                if o.startswith("%") and not (re.match(r"^(sh|sa|ro|rc)", mn) and o == "%cl"): size = regsize(o)
            if mn[-1] in "bwlq" and size in (0, 16): size = {"b": 1, "w": 2, "l": 4, "q": 8}[mn[-1]]
        if STORE.match(mn) and size: return self.hook(ST, size, m)
        if RMW.match(mn) and size: return self.hook(RM, size, m)
        self.hook(OUT); self.hook(LOAD, 0, m)   # unknown writer: performed at once, after everything before it
    def local(self, t):
        """inline functions get private copies: the linker must not exchange them for the simulator's own (or the other way round)"""
        m = re.match(r'^\.section\s+((?:\.text|\.gcc_except_table)[^,]*),"(\w+)",@progbits,[^,]+,comdat$', t)
        if m: return "\t.section %s,\"%s\",@progbits" % (m.group(1), m.group(2).replace("G", ""))
        m = re.match(r"^\.weak\s+(\S+)$", t)
        if m and m.group(1) in self.funcs: return ""
        return None
    def run(self):
        self.funcs = set(re.findall(r"^\s*\.type\s+(\S+),\s*@function", "\n".join(self.lines), re.M)) & (self.defined | set(re.findall(r"^\s*\.set\s+(\S+?),", "\n".join(self.lines), re.M)))
        self.defined |= self.funcs
        for l in self.lines:
            t = l.strip(); r = self.local(t)
            if r is not None: self.out.append(r); continue
            if t.startswith("#") or not t: self.out.append(l); continue
            if t.startswith(".") and not re.match(r"^[\w.$]+:", t): self.out.append(l); continue
            if '"' in t: self.out.append(l); continue
            t = t.split("#", 1)[0]
            for s in t.split(";"): self.stmt(s)
        return "\n".join(self.out) + "\n"
if __name__ == "__main__": open(sys.argv[2], "w").write(Rewriter(open(sys.argv[1]).read()).run())
