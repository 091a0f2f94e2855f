-------------------------------- MODULE Trig --------------------------------
\* Sine and cosine of angles given in 1/100000 degree, scaled by 100000 (table
\* of whole degrees, interpolated: error below 5).
EXTENDS Integers
SinTab == <<0, 1745, 3490, 5234, 6976, 8716, 10453, 12187, 13917, 15643, 17365, 19081, 20791, 22495, 24192,
    25882, 27564, 29237, 30902, 32557, 34202, 35837, 37461, 39073, 40674, 42262, 43837, 45399, 46947,
    48481, 50000, 51504, 52992, 54464, 55919, 57358, 58779, 60182, 61566, 62932, 64279, 65606, 66913,
    68200, 69466, 70711, 71934, 73135, 74314, 75471, 76604, 77715, 78801, 79864, 80902, 81915, 82904,
    83867, 84805, 85717, 86603, 87462, 88295, 89101, 89879, 90631, 91355, 92050, 92718, 93358, 93969,
    94552, 95106, 95630, 96126, 96593, 97030, 97437, 97815, 98163, 98481, 98769, 99027, 99255, 99452,
    99619, 99756, 99863, 99939, 99985, 100000>>
D == 100000
Full == 360 * D
Deg(d) == SinTab[d + 1]
RECURSIVE Sin0(_)
Sin0(a) == IF a > 180 * D THEN -Sin0(a - 180 * D)
           ELSE IF a > 90 * D THEN Sin0(180 * D - a)
           ELSE LET d == a \div D  f == a % D IN
                IF f = 0 THEN Deg(d) ELSE Deg(d) + ((Deg(d + 1) - Deg(d)) * (f \div 10)) \div (D \div 10)
Sin(a) == Sin0(a % Full)
Cos(a) == Sin0((a + 90 * D) % Full)
=============================================================================
