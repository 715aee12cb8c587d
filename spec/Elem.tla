-------------------------------- MODULE Elem --------------------------------
(* Elementwise operations on integers: the scalar function each operation applies. *)
EXTENDS Dress
B01(x) == IF x THEN 1 ELSE 0
Truth(a) == a # 0
\* two's complement bitwise operations on unbounded integers
RECURSIVE BAnd(_, _), BOr(_, _), BXor(_, _)
BAnd(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF a = -1 THEN b ELSE IF b = -1 THEN a
              ELSE 2 * BAnd(a \div 2, b \div 2) + (a % 2) * (b % 2)
BOr(a, b) == -1 - BAnd(-1 - a, -1 - b)
BXor(a, b) == BOr(a, b) - BAnd(a, b)
RECURSIVE Pw(_, _)
Pw(a, k) == IF k = 0 THEN 1 ELSE a * Pw(a, k - 1)
Pow2(k) == Pw(2, k)

Bin(op, a, b) ==
    CASE op = "add" -> a + b
      [] op = "sub" -> a - b
      [] op = "mul" -> a * b
      [] op = "div" -> TDiv(a, b)          \* drawn so that it is exact
      [] op = "rem" -> TRem(a, b)
      [] op = "pow" -> Pw(a, b)
      [] op = "maximum" -> Max2(a, b)
      [] op = "minimum" -> Min2(a, b)
      [] op = "logical_and" -> B01(Truth(a) /\ Truth(b))
      [] op = "logical_or" -> B01(Truth(a) \/ Truth(b))
      [] op = "logical_xor" -> B01(Truth(a) # Truth(b))
      [] op = "eq" -> B01(a = b)
      [] op = "ne" -> B01(a # b)
      [] op = "lt" -> B01(a < b)
      [] op = "le" -> B01(a <= b)
      [] op = "gt" -> B01(a > b)
      [] op = "ge" -> B01(a >= b)
      [] op = "bitwise_and" -> BAnd(a, b)
      [] op = "bitwise_or" -> BOr(a, b)
      [] op = "bitwise_xor" -> BXor(a, b)
      [] op = "shl" -> a * Pow2(b)
      [] op = "shr" -> a \div Pow2(b)
BinOps == {"add", "sub", "mul", "div", "rem", "pow", "maximum", "minimum", "logical_and", "logical_or", "logical_xor",
           "eq", "ne", "lt", "le", "gt", "ge", "bitwise_and", "bitwise_or", "bitwise_xor", "shl", "shr"}
BoolRes == {"logical_and", "logical_or", "logical_xor", "eq", "ne", "lt", "le", "gt", "ge", "logical_not",
            "eq_scalar", "ne_scalar", "lt_scalar", "le_scalar", "gt_scalar", "ge_scalar"}
Un(op, a) ==
    CASE op = "neg" -> -a
      [] op = "abs" -> Abs(a)
      [] op = "sign" -> IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
      [] op = "square" -> a * a
      [] op = "relu" -> Max2(a, 0)
      [] op = "logical_not" -> B01(~Truth(a))
      [] op = "bitwise_not" -> -1 - a
      [] op = "contiguous" -> a
UnOps == {"neg", "abs", "sign", "square", "relu", "logical_not", "bitwise_not"}
ScOps == {"add_scalar", "sub_scalar", "mul_scalar", "div_scalar", "rem_scalar", "pow_scalar", "maximum_scalar", "minimum_scalar",
          "eq_scalar", "ne_scalar", "lt_scalar", "le_scalar", "gt_scalar", "ge_scalar", "clamp_min", "clamp_max"}
Sc(op, a, c) ==
    CASE op = "add_scalar" -> a + c
      [] op = "sub_scalar" -> a - c
      [] op = "mul_scalar" -> a * c
      [] op = "div_scalar" -> TDiv(a, c)
      [] op = "rem_scalar" -> TRem(a, c)
      [] op = "pow_scalar" -> Pw(a, c)
      [] op \in {"maximum_scalar", "clamp_min"} -> Max2(a, c)
      [] op \in {"minimum_scalar", "clamp_max"} -> Min2(a, c)
      [] op = "eq_scalar" -> B01(a = c)
      [] op = "ne_scalar" -> B01(a # c)
      [] op = "lt_scalar" -> B01(a < c)
      [] op = "le_scalar" -> B01(a <= c)
      [] op = "gt_scalar" -> B01(a > c)
      [] op = "ge_scalar" -> B01(a >= c)
\* element types an operation is defined on
DtsOf(op) ==
    CASE op \in {"logical_and", "logical_or", "logical_xor", "logical_not", "eq", "ne", "eq_scalar", "ne_scalar"} -> "f32,bool,i32,u8,f64,i64,bf16,f16,f8e4m3,f8e5m2,i8,i16,u16,u32,u64"
      [] op \in {"div", "pow", "div_scalar", "pow_scalar"} -> "float"
      [] op \in {"bitwise_and", "bitwise_or", "bitwise_xor", "shl", "shr", "bitwise_not", "shl_scalar", "shr_scalar"} -> "bits"
      [] op \in {"neg", "abs", "sign", "relu"} -> "signed"
      [] OTHER -> "num"
ResTag(op) == IF op \in BoolRes THEN "b" ELSE "n"
\* data streams per operation: a value of operand i (1 or 2), element k, stream s
Draw(op, i, s, k) == LET h == Hash(s + 50 * i, k, 1000) IN
    CASE op \in {"logical_and", "logical_or", "logical_xor", "logical_not"} -> h % 2
      [] op \in {"eq", "ne", "lt", "le", "gt", "ge"} -> (h % 3) - (IF s % 2 = 0 THEN 1 ELSE 0)
      [] op = "mul" -> (h % 5) - (IF s % 2 = 0 THEN 2 ELSE 0)
      [] op = "div" -> IF i = 1 THEN 4 * ((h % 4) - (IF s % 2 = 0 THEN 2 ELSE 0)) ELSE Pow2(h % 3) * (IF s % 2 = 0 /\ h % 7 < 3 THEN -1 ELSE 1)
      [] op = "rem" -> IF i = 1 THEN (h % 16) - (IF s % 2 = 0 THEN 8 ELSE 0) ELSE (1 + (h % 5)) * (IF s % 2 = 0 /\ h % 7 < 3 THEN -1 ELSE 1)
      [] op = "pow" -> IF i = 1 THEN (h % 5) - (IF s % 2 = 0 THEN 2 ELSE 0) ELSE h % 3
      [] op \in {"bitwise_and", "bitwise_or", "bitwise_xor"} -> IF s % 2 = 0 THEN (h % 256) - 128 ELSE h % 128
      [] op = "shl" -> IF i = 1 THEN (h % 8) - (IF s % 2 = 0 THEN 4 ELSE 0) ELSE h % 5
      [] op = "shr" -> IF i = 1 THEN (h % 120) - (IF s % 2 = 0 THEN 60 ELSE 0) ELSE h % 7
      [] op \in {"sub"} -> IF s % 2 = 0 THEN (h % 17) - 8 ELSE IF i = 1 THEN 8 + (h % 8) ELSE h % 8
      [] op \in {"shl_scalar"} -> (h % 8) - (IF s % 2 = 0 THEN 4 ELSE 0)
      [] op \in {"shr_scalar"} -> (h % 120) - (IF s % 2 = 0 THEN 60 ELSE 0)
      [] op \in {"div_scalar"} -> 4 * ((h % 4) - (IF s % 2 = 0 THEN 2 ELSE 0))
      [] op \in {"pow_scalar", "square"} -> (h % 5) - (IF s % 2 = 0 THEN 2 ELSE 0)
      [] OTHER -> (h % 9) - (IF s % 2 = 0 THEN 4 ELSE 0)
ScParams(op) ==
    CASE op = "div_scalar" -> {1, 2, -4}
      [] op = "rem_scalar" -> {1, 2, 3, -3}
      [] op = "pow_scalar" -> {0, 1, 2, 3}
      [] OTHER -> {-3, -1, 0, 1, 2}
=============================================================================
