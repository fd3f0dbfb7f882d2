/// Units of measure: radians per unit and metres per unit, as exact (numerator, denominator) pairs.
module units {
  import fx.* from "./fx"
  /// code: 0 radian, 1 degree, 2 gradian, 3 arc second, 4 user defined n/d
  pure def angleUnitOf(c: int, n: int, d: int): (int, int) =
    if (c == 0) (S, S) else if (c == S) (PI, 180 * S) else if (c == 2 * S) (PI, 200 * S)
    else if (c == 3 * S) (PI, 648000 * S) else (n, d)
  /// code: 0 metre, 1 international foot, 2 US survey foot, 3 user defined n/d
  pure def lengthUnitOf(c: int, n: int, d: int): (int, int) =
    if (c == 0) (S, S) else if (c == S) (3048, 10000) else if (c == 2 * S) (1200, 3937) else (n, d)
  pure def toBase(x: int, u: (int, int)): int = (x * u._1) / u._2
  pure def fromBase(x: int, u: (int, int)): int = (x * u._2) / u._1
}
