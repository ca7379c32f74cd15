// Literals of the wrapped types: feature, name, integer, bits, precision (included where `table!` is defined).
table! { "i16" w16 i16 16 2 U2: 0 0.0 1 -1 1.5 -1.5 0.25 327.67 -327.67 0.01 -0.01 12.3 007.50 300 -327 99.99 }
table! { "i32" w32 i32 32 4 U4: 0 1 -0.0001 0.0001 214748.3647 -214748.3647 1000.5 -99999.9999 3.1415 65536 -32768.5 }
table! { "i64" w64 i64 64 9 U9: 0 0.1 -0.1 12.34 9223372036.854775807 -9223372036.854775807 123456789.123456789 0.000000001 -0.000000001 9007199.254740993 4294967296 -2147483648.5 1.020 999999999.999999999 }
table! { "i64" w64z i64 64 0 U0: 0 1 -1 9223372036854775807 -9223372036854775807 4611686018427387904 9007199254740993 1000000000000000000 }
table! { "i128" w128 i128 128 18 U18: 0 0.000000000000000001 -0.000000000000000001 170141183460469231731.687303715884105727 -170141183460469231731.687303715884105727 18446744073709551616.5 -9223372036854775808.000000000000000001 123456789012345678.876543210123456789 1.1 -1.000000000000000001 100000000000000000000 }
table! { "i128" w128x i128 128 38 U38: 0 1 -1 0.00000000000000000000000000000000000001 1.70141183460469231731687303715884105727 -1.70141183460469231731687303715884105727 0.5 -0.12345678901234567890123456789012345678 1.5 }
