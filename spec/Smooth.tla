------------------------------- MODULE Smooth -------------------------------
(***************************************************************************)
(* The same specification over the reals: an element is an interval         *)
(* <<lo, hi>> that holds the true value, in units of 1/4096.  All roundings *)
(* go outwards, so that a reply outside the interval is wrong for sure.     *)
(* Numbers in calls are in units of 1/64; a reply q stands for a value in   *)
(* [q, q + 1) units.  The operators below replace those of Tensors and      *)
(* Autograd (see the substitutions in check.py).                           *)
(***************************************************************************)
EXTENDS Trace

F == 4096

\* floor(x * y / F) without leaving 32 bits, for |x * y| < 2^43
MulDown(x, y) == (x \div F) * y + (x % F) * (y \div F) + ((x % F) * (y % F)) \div F
MulUp(x, y) == 0 - MulDown(0 - x, y)

IZero == <<0, 0>>
IOne == <<F, F>>
INoElem == <<BAD, BAD>>
ILift(x) == IF x \in Special THEN INoElem ELSE <<x * 64, x * 64>>
IPlus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
INeg(a) == <<0 - a[2], 0 - a[1]>>
Least(X) == CHOOSE x \in X : \A y \in X : x <= y
Most(X) == CHOOSE x \in X : \A y \in X : x >= y
ITimes(a, b) ==
    IF a = IZero \/ b = IZero THEN IZero
    ELSE IF a[1] = a[2] /\ b[1] = b[2] THEN <<MulDown(a[1], b[1]), MulUp(a[1], b[1])>>
    ELSE <<Least({MulDown(a[i], b[j]) : i \in 1..2, j \in 1..2}), Most({MulUp(a[i], b[j]) : i \in 1..2, j \in 1..2})>>

IRelu(a) == <<Max2(a[1], 0), Max2(a[2], 0)>>
IAbs(a) == IF a[1] >= 0 THEN a ELSE IF a[2] <= 0 THEN INeg(a) ELSE <<0, Max2(a[2], 0 - a[1])>>
\* on which side of the kink: at zero only if it is zero for sure
Above(a) == a[1] > 0 \/ a = IZero
Below(a) == a[2] < 0
IReluD(a) == IF Above(a) THEN IOne ELSE IF Below(a) THEN IZero ELSE <<0, F>>
IAbsD(a) == IF Above(a) THEN IOne ELSE IF Below(a) THEN <<0 - F, 0 - F>> ELSE <<0 - F, F>>

\* tanh at k / 64, rounded down
Table == <<
    0, 63, 127, 191, 255, 319, 382, 446, 509, 572, 634, 697, 759, 820, 881, 942,
    1003, 1063, 1122, 1181, 1239, 1297, 1355, 1411, 1467, 1523, 1578, 1632, 1685, 1738, 1790, 1842,
    1892, 1942, 1992, 2040, 2088, 2135, 2181, 2226, 2271, 2315, 2358, 2401, 2442, 2483, 2523, 2563,
    2601, 2639, 2676, 2712, 2748, 2783, 2817, 2850, 2883, 2915, 2946, 2976, 3006, 3035, 3064, 3092,
    3119, 3146, 3171, 3197, 3221, 3246, 3269, 3292, 3314, 3336, 3357, 3378, 3398, 3418, 3437, 3456,
    3474, 3492, 3509, 3526, 3542, 3558, 3574, 3589, 3603, 3618, 3631, 3645, 3658, 3671, 3683, 3695,
    3707, 3718, 3729, 3740, 3751, 3761, 3771, 3780, 3790, 3799, 3808, 3816, 3824, 3833, 3840, 3848,
    3855, 3863, 3870, 3876, 3883, 3889, 3895, 3901, 3907, 3913, 3918, 3924, 3929, 3934, 3939, 3944,
    3948, 3953, 3957, 3961, 3965, 3969, 3973, 3977, 3980, 3984, 3987, 3990, 3994, 3997, 4000, 4003,
    4005, 4008, 4011, 4013, 4016, 4018, 4021, 4023, 4025, 4027, 4029, 4031, 4033, 4035, 4037, 4039,
    4041, 4042, 4044, 4046, 4047, 4049, 4050, 4051, 4053, 4054, 4055, 4057, 4058, 4059, 4060, 4061,
    4062, 4063, 4064, 4065, 4066, 4067, 4068, 4069, 4070, 4070, 4071, 4072, 4073, 4073, 4074, 4075,
    4075, 4076, 4076, 4077, 4078, 4078, 4079, 4079, 4080, 4080, 4081, 4081, 4082, 4082, 4082, 4083,
    4083, 4084, 4084, 4084, 4085, 4085, 4085, 4086, 4086, 4086, 4086, 4087, 4087, 4087, 4088, 4088,
    4088, 4088, 4088, 4089, 4089, 4089, 4089, 4090, 4090, 4090, 4090, 4090, 4090, 4091, 4091, 4091,
    4091, 4091, 4091, 4091, 4092, 4092, 4092, 4092, 4092, 4092, 4092, 4092, 4092, 4092, 4093, 4093,
    4093, 4093, 4093, 4093, 4093, 4093, 4093, 4093, 4093, 4093, 4093, 4094, 4094, 4094, 4094, 4094,
    4094, 4094, 4094, 4094, 4094, 4094, 4094, 4094, 4094, 4094, 4094, 4094, 4094, 4094, 4094, 4094,
    4094, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095,
    4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095,
    4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095,
    4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095,
    4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095,
    4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095,
    4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095,
    4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095,
    4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095,
    4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095,
    4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095,
    4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095,
    4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095,
    4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095,
    4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095,
    4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095,
    4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095,
    4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095, 4095,
    4095, 4095 >>
\* Between two points of the table tanh is above the chord, by less than F * (1/64)^2 / 10 = 1/10
Chord(x) ==
    LET k == x \div 64 r == x % 64 IN
    IF k + 2 > Len(Table) THEN F - 1 ELSE (Table[k + 1] * (64 - r) + Table[k + 2] * r) \div 64
TanhDown(x) == IF x >= 0 THEN Chord(x) ELSE 0 - Min2(F, Chord(0 - x) + 3)
TanhUp(x) == IF x >= 0 THEN Min2(F, Chord(x) + 3) ELSE 0 - Chord(0 - x)
ITanh(a) == IF a = IZero THEN IZero ELSE <<TanhDown(a[1]), TanhUp(a[2])>>
\* 1 - tanh^2
ITanhD(a) ==
    LET t == IAbs(ITanh(a)) IN <<F - MulUp(t[2], t[2]), F - MulDown(t[1], t[1])>>

\* a reply of q, give or take the rounding of floating point numbers
Near(a, q) == q \notin Special /\ q + 4 >= a[1] /\ q - 3 <= a[2]
NearAll(as, qs) == Len(as) = Len(qs) /\ \A p \in 1..Len(as) : Near(as[p], qs[p])
SeenAs(w, g) ==      \* one variable, as obs shows it
    /\ DOMAIN w = DOMAIN g
    /\ \A f \in DOMAIN w :
          CASE f \in {"val", "gval"} -> NearAll(w[f], g[f])
            [] f = "ps" -> /\ Len(w.ps) = Len(g.ps)
                           /\ \A p \in 1..Len(w.ps) : \A h \in DOMAIN w.ps[p] :
                                IF h \in {"val", "gval"} THEN NearAll(w.ps[p][h], g.ps[p][h]) ELSE w.ps[p][h] = g.ps[p][h]
            [] OTHER -> w[f] = g[f]
IAgree(c, w, g) ==
    IF c.op = "obs" /\ g.st = "ok"
    THEN Len(w.v) = Len(g.v) /\ \A a \in 1..Len(w.v) : SeenAs(w.v[a], g.v[a])
    ELSE SeenAs(w, g)

\* an interval is never turned inside out
IntervalsOk == \A i \in 1..Len(S.nd) : \A p \in 1..Len(S.nd[i].val) : S.nd[i].val[p][1] <= S.nd[i].val[p][2]
=============================================================================
