"""Reference field arithmetic, written from mkdocs/docs/circom-language/basic-operators.md."""

PRIMES = {
    "bn128": 21888242871839275222246405745257275088548364400416034343698204186575808495617,
    "bls12377": 8444461749428370424248824938781546531375899335154063827935233455917409239041,
    "bls12381": 52435875175126190479447740508185965837690552500527637822603658699938581184513,
    "goldilocks": 18446744069414584321,
    "grumpkin": 21888242871839275222246405745257275088696311157297823662689037894645226208583,
    "pallas": 28948022309329048855892746252171976963363056481941560715954676764349967630337,
    "vesta": 28948022309329048855892746252171976963363056481941647379679742748393362948097,
    "secq256r1": 115792089210356248762697446949407573530086143415290314195533631308867097853951,
}


class EvalError(Exception):
    """Undefined by the documentation (division by zero)."""


class Field:
    def __init__(self, name):
        self.name = name
        self.p = PRIMES[name]
        self.bits = self.p.bit_length()
        self.mask = (1 << self.bits) - 1
        self.half = self.p // 2

    def val(self, z):
        z %= self.p
        return z - self.p if z >= self.half + 1 else z

    def shl(self, x, k):
        if k <= self.half:
            if k > self.bits:
                return 0
            return ((x << k) & self.mask) % self.p
        return self.shr(x, self.p - k)

    def shr(self, x, k):
        if k <= self.half:
            if k > self.bits:
                return 0
            return x >> k
        return self.shl(x, self.p - k)

    def bin(self, op, a, b):
        p = self.p
        if op == "+":
            return (a + b) % p
        if op == "-":
            return (a - b) % p
        if op == "*":
            return a * b % p
        if op == "/":
            if b == 0:
                raise EvalError("div0")
            return a * pow(b, -1, p) % p
        if op == "\\":
            if b == 0:
                raise EvalError("idiv0")
            return a // b
        if op == "%":
            if b == 0:
                raise EvalError("mod0")
            return a % b
        if op == "**":
            return pow(a, b, p)
        if op == "<<":
            return self.shl(a, b)
        if op == ">>":
            return self.shr(a, b)
        if op == "&":
            return (a & b) % p
        if op == "|":
            return (a | b) % p
        if op == "^":
            return (a ^ b) % p
        if op == "&&":
            return int(a != 0 and b != 0)
        if op == "||":
            return int(a != 0 or b != 0)
        if op == "==":
            return int(a == b)
        if op == "!=":
            return int(a != b)
        va, vb = self.val(a), self.val(b)
        if op == "<":
            return int(va < vb)
        if op == ">":
            return int(va > vb)
        if op == "<=":
            return int(va <= vb)
        if op == ">=":
            return int(va >= vb)
        raise AssertionError(op)

    def un(self, op, a):
        if op == "-":
            return -a % self.p
        if op == "!":
            return int(a == 0)
        if op == "~":
            return (a ^ self.mask) % self.p
        raise AssertionError(op)


FIELDS = {}


def field(name):
    if name not in FIELDS:
        FIELDS[name] = Field(name)
    return FIELDS[name]


BINOPS = ["+", "-", "*", "/", "\\", "%", "**", "<<", ">>", "&", "|", "^",
          "&&", "||", "==", "!=", "<", ">", "<=", ">="]
UNOPS = ["-", "!", "~"]
