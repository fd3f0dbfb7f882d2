// -*- mode: Bluespec; -*-
/// Fixed-point real arithmetic over unbounded integers.
///
/// A real x is represented by the integer round(x * 10^30).  Every numeric clause of the geokit
/// specification is stated over these integers, so the specification owns its own real arithmetic and
/// never relies on the floating point of the implementation (nor of the simulator).
/// All functions are accurate to ~1e-28 on the ranges used; the clauses that use them compare
/// with tolerances no finer than 1e-16.
module fx {
  pure val S: int = 1000000000000000000000000000000
  pure val PI: int = 3141592653589793238462643383280
  pure val TAU: int = 6283185307179586476925286766559
  pure val HALFPI: int = 1570796326794896619231321691640
  pure val LN2: int = 693147180559945309417232121458

  // ---- trace value sentinels (see harness/README in DESIGN.md): non finite or out-of-range f64
  pure val NAN: int = 40000000000000000000000000000000000000000000000000
  pure val INF: int = 30000000000000000000000000000000000000000000000000
  pure val BIGV: int = 20000000000000000000000000000000000000000000000000
  pure def isNum(x: int): bool = -BIGV < x and x < BIGV
  pure def finite(x: int): bool = -INF < x and x < INF

  pure def abs(x: int): int = if (x < 0) -x else x
  pure def sgn(x: int): int = if (x < 0) -1 else if (x > 0) 1 else 0
  pure def max(a: int, b: int): int = if (a > b) a else b
  pure def min(a: int, b: int): int = if (a < b) a else b
  pure def near(a: int, b: int, tol: int): bool = isNum(a) and isNum(b) and abs(a - b) <= tol

  pure def mul(a: int, b: int): int = (a * b) / S
  pure def div(a: int, b: int): int = (a * S) / b
  pure def sq(a: int): int = (a * a) / S
  pure def mul3(a: int, b: int, c: int): int = mul(mul(a, b), c)

  /// floor division / non-negative modulus for a positive divisor
  pure def fdiv(a: int, m: int): int = {
    val q = a / m
    if (q * m > a) q - 1 else q
  }
  pure def fmod(a: int, m: int): int = a - m * fdiv(a, m)

  /// a reduced to (-m/2, m/2]
  pure def wrapTo(a: int, m: int): int = {
    val r = fmod(a, m)
    if (2 * r > m) r - m else r
  }
  /// angle reduced to (-pi, pi]
  pure def wrapPi(a: int): int = wrapTo(a, TAU)
  /// circular distance of two angles (both radians)
  pure def circDist(a: int, b: int): int = abs(wrapPi(a - b))

  // ---- square roots
  pure val ISQ_STEPS: List[(int, int)] = [
    (2^256, 2^128), (2^128, 2^64), (2^64, 2^32), (2^32, 2^16), (2^16, 2^8), (2^8, 2^4), (2^4, 2^2), (2^2, 2^1)
  ]
  pure val EIGHT: List[int] = [1, 2, 3, 4, 5, 6, 7, 8]
  /// integer square root (within 1)
  pure def isqrt(n: int): int =
    if (n <= 0) 0 else {
      val g = ISQ_STEPS.foldl((n, 1), (acc, p) =>
        if (acc._1 >= p._1) (acc._1 / p._1, acc._2 * p._2) else acc)._2
      EIGHT.foldl(g, (x, _) => (x + n / x) / 2)
    }
  pure def sqrt(x: int): int = isqrt(x * S)
  pure def hypot(a: int, b: int): int = isqrt(a * a + b * b)
  pure def hypot3(a: int, b: int, c: int): int = isqrt(a * a + b * b + c * c)

  // ---- sine / cosine
  // coefficients k for the Horner form  1 - x2/(d1)(1 - x2/(d2)(...))
  pure val SIN_D: List[int] = [812, 702, 600, 506, 420, 342, 272, 210, 156, 110, 72, 42, 20, 6]
  pure val COS_D: List[int] = [870, 756, 650, 552, 462, 380, 306, 240, 182, 132, 90, 56, 30, 12, 2]
  pure def sinSmall(x: int): int = {
    val x2 = sq(x)
    mul(x, SIN_D.foldl(S, (acc, d) => S - (x2 * acc) / (d * S)))
  }
  pure def cosSmall(x: int): int = {
    val x2 = sq(x)
    COS_D.foldl(S, (acc, d) => S - (x2 * acc) / (d * S))
  }
  /// (sin, cos)
  pure def sincos(x: int): (int, int) = {
    val q = fdiv(2 * x + HALFPI, 2 * HALFPI)       // nearest multiple of pi/2
    // q * pi/2 computed from TAU to keep one ulp of error
    val r = x - (q * TAU) / 4
    val s = sinSmall(r)
    val c = cosSmall(r)
    val m = fmod(q, 4)
    if (m == 0) (s, c) else if (m == 1) (c, -s) else if (m == 2) (-s, -c) else (-c, s)
  }
  pure def sin(x: int): int = sincos(x)._1
  pure def cos(x: int): int = sincos(x)._2
  pure def tan(x: int): int = {
    val sc = sincos(x)
    div(sc._1, sc._2)
  }

  // ---- arc tangent
  pure val ATAN_K: List[int] = [45, 43, 41, 39, 37, 35, 33, 31, 29, 27, 25, 23, 21, 19, 17, 15, 13, 11, 9, 7, 5, 3, 1]
  /// 0 <= t <= 1
  pure def atanUnit(t: int): int = {
    val t1 = div(t, S + sqrt(S + sq(t)))
    val t2 = div(t1, S + sqrt(S + sq(t1)))
    val u = sq(t2)
    val p = ATAN_K.foldl(0, (acc, k) => S / k - mul(u, acc))
    4 * mul(t2, p)
  }
  /// y and x on any common scale; result in (-pi, pi]; atan2(0,0) = 0
  pure def atan2(y: int, x: int): int =
    if (x == 0 and y == 0) 0 else {
      val ay = abs(y)
      val ax = abs(x)
      val base = if (ay <= ax) atanUnit((ay * S) / ax) else HALFPI - atanUnit((ax * S) / ay)
      val q = if (x < 0) PI - base else base
      if (y < 0) -q else q
    }
  pure def atan(t: int): int = atan2(t, S)
  pure def asin(t: int): int = atan2(t, sqrt(S - sq(t)))
  pure def acos(t: int): int = atan2(sqrt(S - sq(t)), t)

  // ---- exponential and logarithm
  pure val EXP_K: List[int] = [26, 25, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1]
  pure def exp(x: int): int = {
    val k = fdiv(2 * x + LN2, 2 * LN2)
    val r = x - k * LN2
    val e = EXP_K.foldl(S, (acc, n) => S + (r * acc) / (n * S))
    if (k >= 0) e * (2^k) else e / (2^(-k))
  }
  pure val LN_STEPS: List[int] = [64, 32, 16, 8, 4, 2, 1]
  pure val LN_K: List[int] = [41, 39, 37, 35, 33, 31, 29, 27, 25, 23, 21, 19, 17, 15, 13, 11, 9, 7, 5, 3, 1]
  pure val SQRT2: int = 1414213562373095048801688724210
  /// natural logarithm of x > 0, x in (2^-127, 2^127)
  pure def ln(x: int): int = {
    val up = LN_STEPS.foldl((x, 0), (acc, p) =>
      if (acc._1 >= S * 2^p) (acc._1 / 2^p, acc._2 + p) else acc)
    val dn = LN_STEPS.foldl(up, (acc, p) =>
      if (acc._1 * 2^p <= S) (acc._1 * 2^p, acc._2 - p) else acc)
    val m = if (dn._1 > SQRT2) (dn._1 / 2, dn._2 + 1) else if (dn._1 * SQRT2 < S * S) (dn._1 * 2, dn._2 - 1) else dn
    val t = div(m._1 - S, m._1 + S)
    val u = sq(t)
    val p = LN_K.foldl(0, (acc, k) => S / k + mul(u, acc))
    2 * mul(t, p) + m._2 * LN2
  }
  pure def atanh(x: int): int = ln(div(S + x, S - x)) / 2
  pure def sinh(x: int): int = {
    val e = exp(x)
    (e - div(S, e)) / 2
  }
  pure def cosh(x: int): int = {
    val e = exp(x)
    (e + div(S, e)) / 2
  }
  pure def asinh(x: int): int = {
    val r = ln(abs(x) + sqrt(S + sq(x)))
    if (x < 0) -r else r
  }

  // ---- 20-point Gauss-Legendre rule on [0,1]: (node, weight)
  pure val GL20: List[(int, int)] = [
    (996564299592547462393061194236, 8807003569576059155930981176),
    (981985963638956895633833065599, 20300714900193470665519976137),
    (956117214125662952933876220602, 31336024167054531784753267594),
    (919558485911109411697264530851, 41638370788352374362379071611),
    (873165953230075396307152535178, 50965059908620217518375067740),
    (818026840363257512726418348113, 59097265980759208656188688856),
    (755433500975413549002182025478, 65844319224588313449247249874),
    (686853044357709780336274088512, 71048054659191025664649162534),
    (613892925570822539040248097684, 74586493236301873393914368501),
    (538263260566748666877320204699, 76376693565362925349042165978),
    (461736739433251333122679795301, 76376693565362925349042165978),
    (386107074429177460959751902316, 74586493236301873393914368501),
    (313146955642290219663725911488, 71048054659191025664649162534),
    (244566499024586450997817974522, 65844319224588313449247249874),
    (181973159636742487273581651887, 59097265980759208656188688856),
    (126834046769924603692847464822, 50965059908620217518375067740),
    (80441514088890588302735469149, 41638370788352374362379071611),
    (43882785874337047066123779398, 31336024167054531784753267594),
    (18014036361043104366166934401, 20300714900193470665519976137),
    (3435700407452537606938805764, 8807003569576059155930981176)
  ]
  pure def integrate(f: (int) => int, lo: int, hi: int): int = {
    val w = hi - lo
    mul(w, GL20.foldl(0, (acc, nw) => acc + mul(nw._2, f(lo + mul(w, nw._1)))))
  }

  // ---- trace packing: fields are written in base FB with offset FOFF
  pure val FB: int = 100000000000000000000000000000000000000000000000000000
  pure val FOFF: int = 50000000000000000000000000000000000000000000000000000
  /// the n fields packed in v, first field first
  pure def unpack(v: int, n: int): List[int] =
    range(0, n).foldl((v, List()), (acc, _) => (acc._1 / FB, acc._2.append(acc._1 % FB - FOFF)))._2
  /// One observed call of the implementation: operation code, inputs, results (results[0] is the status).
  type Ev = { op: int, a: List[int], r: List[int] }
  /// an event packed in ni + no + 1 fields
  pure def decode(v: int, ni: int, no: int): Ev = {
    val f = unpack(v, ni + no + 1)
    { op: f[0] / S, a: f.slice(1, ni + 1), r: f.slice(ni + 1, ni + no + 1) }
  }
  // statuses
  pure val OK: int = 0
  pure val ERR: int = S
  pure val PANIC: int = 2 * S
  pure val HANG: int = 3 * S
  /// Verdict helper: the code of the first clause that fails, 0 if all hold
  pure def firstBad(cs: List[(int, bool)]): int =
    cs.foldl(0, (acc, c) => if (acc == 0 and not(c._2)) c._1 else acc)
  /// Measured clauses: (code, measured discrepancy, allowed); the code of the first one exceeded
  pure def firstOver(cs: List[(int, int, int)]): int =
    cs.foldl(0, (acc, c) => if (acc == 0 and c._2 > c._3) c._1 else acc)
  pure def gap(x: int, t: int): int = if (isNum(x) and isNum(t)) abs(x - t) else BIGV
  pure def must(code: int, b: bool): (int, int, int) = (code, if (b) 0 else 1, 0)
  pure def isBool(x: int): bool = x == 0 or x == S
  pure def asBool(x: int): bool = x == S
  pure def boolIs(x: int, b: bool): bool = x == (if (b) S else 0)

  pure def cm(k: int): int = k * 10^28
  pure def mm(k: int): int = k * 10^27
  pure def um(k: int): int = k * 10^24
  pure def nm(k: int): int = k * 10^21

  // ---- self tests (identities and published constants)
  pure def okAt(x: int, y: int): bool = abs(x - y) < 1000
  run fxSelfTest = all {
    assert(okAt(sin(S), 841470984807896506652502321630)),
    assert(okAt(cos(S), 540302305868139717400936607443)),
    assert(okAt(sin(7 * S), 656986598718789090396999091594)),
    assert(okAt(sin(-12345 * S), 993771636455681168008704837265)),
    assert(okAt(tan(-S), -1557407724654902230506974807458)),
    assert(okAt(atan2(S, S), 785398163397448309615660845820)),
    assert(okAt(atan(2 * S), 1107148717794090503017065460179)),
    assert(okAt(atan2(-S, -2 * S), -2677945044588987122248387151818)),
    assert(okAt(exp(S), 2718281828459045235360287471353)),
    assert(okAt(exp(-20 * S), 2061153622438557827966)),
    assert(okAt(ln(10 * S), 2302585092994045684017991454684)),
    assert(okAt(ln(S / 1000), -6907755278982137052053974364053)),
    assert(okAt(sqrt(2 * S), 1414213562373095048801688724210)),
    assert(okAt(sinh(S), 1175201193643801456882381850596)),
    assert(okAt(atanh(S / 2), 549306144334054845697622618461)),
    assert(okAt(asinh(-S), -881373587019543025232609324980)),
    assert(okAt(integrate(x => sq(sin(x)), 0, PI), 1570796326794896619231321691640)),
    assert(okAt(asin(S / 2), 523598775598298873077107230547)),
    assert(wrapPi(-PI) == PI or okAt(abs(wrapPi(-PI)), PI)),
    assert(fdiv(-7, 2) == -4 and fmod(-7, 2) == 1)
  }

  /// t is the tangent of an angle with this sine and cosine (close to a right angle an ulp of the angle is much of it)
  pure def tanIs(t: int, sc: (int, int)): bool =
    if (abs(sc._2) < 10^20) true
    else { val w = div(sc._1, sc._2)
           near(t, w, abs(w) / 10^14 + (abs(w) * abs(w) / S) / 10^15 + 10^15) }
}
