"""Behaviour-preserving edits of /repo's sources, applied in a scratch copy, on which the checks have to stay quiet.
   refactorings.py VARIANT DIR   edits the copy of /repo in DIR
"""
import sys

V = {}
V['a'] = [
 ('src/vector.rs', '''        let differences = self
            .iter()
            .zip(rhs.iter())
            .map(|(a, b)| a.into() - b.into());

        differences.map(|n| n * n).sum::<f32>().sqrt()''',
 '''        let mut total: f32 = -0.0;
        for (a, b) in self.iter().zip(rhs.iter()) {
            let d = a.into() - b.into();
            total += d * d;
        }
        total.sqrt()'''),
 ('src/vector.rs', '''        self.iter()
            .map(|n| {
                let n = n.into();
                n * n
            })
            .sum::<f32>()
            .sqrt()''', '''        let squares = self.iter().map(|n| n.into()).map(|n: f32| n * n);
        let total: f32 = squares.sum();
        total.sqrt()'''),
 ('src/vector/vector2d.rs', '''        (self.x * rhs.x) + (self.y * rhs.y)
    }''', '''        let y = self.y * rhs.y;
        let x = self.x * rhs.x;
        x + y
    }'''),
 ('src/vector/vector3d.rs', '''    pub fn dot(self, rhs: Self) -> C {
        (self.x * rhs.x) + (self.y * rhs.y) + (self.z * rhs.z)
    }''', '''    pub fn dot(self, rhs: Self) -> C {
        Vector::dot(self, rhs)
    }'''),
 ('src/vector/vector3d.rs', '''        *self = *self + other;''', '''        self.x = self.x + other.x;
        self.y = self.y + other.y;
        self.z = self.z + other.z;'''),
 ('src/vector/vector2d.rs', '''        iter.fold(Vector2d::default(), |prev, current| prev + current)''', '''        let mut total = Vector2d::default();
        for v in iter {
            total += v;
        }
        total'''),
 ('src/float/atan2.rs', '''        let scale = if self.abs() > rhs.abs() {
            self.abs()
        } else {
            rhs.abs()
        };''', '''        let scale = Self(self.abs().0.max(rhs.abs().0));'''),
 ('src/float/atan2.rs', '''        PI / 2.0 * if n > 2.0 { n - 4.0 } else { n }''', '''        let signed = if n <= 2.0 { n } else { n - 4.0 };
        signed * (PI / 2.0)'''),
 ('src/quaternion.rs', '''        let sin_p = if sin_p > 1. {
            1.
        } else if sin_p < -1. {
            -1.
        } else {
            sin_p
        };''', '''        let sin_p = sin_p.clamp(-1., 1.);'''),
 ('src/quaternion.rs', '''        let k = scalar.into();
        Self(self.0 * k, self.1 * k, self.2 * k, self.3 * k)''', '''        let k = scalar.into();
        let scaled = self.to_array().map(|c| c * k);
        Self(scaled[0], scaled[1], scaled[2], scaled[3])'''),
 ('src/float/floor.rs', '''        let mut res = (self.0 as i32) as f32;

        if self.0 < res {
            res -= 1.0;
        }''', '''        let toward_zero = (self.0 as i32) as f32;
        let res = if toward_zero > self.0 {
            toward_zero - 1.0
        } else {
            toward_zero
        };'''),
 ('src/float/copysign.rs', '''        let source_bits = sign.to_bits();
        let source_sign = source_bits & SIGN_MASK;
        let signless_destination_bits = self.to_bits() & !SIGN_MASK;
        Self::from_bits(signless_destination_bits | source_sign)''', '''        let differ = (self.to_bits() ^ sign.to_bits()) & SIGN_MASK;
        Self::from_bits(self.to_bits() ^ differ)'''),
 ('src/float/rem_euclid.rs', '''        if r >= Self::ZERO {
            r
        } else {
            r + rhs.abs()
        }''', '''        if !(r >= Self::ZERO) {
            return r + rhs.without_sign();
        }
        r'''),
 ('src/float/exp.rs', '''        for i in (1..=iter).rev() {
            total = 1.0 + ((self.0 / (i as f32)) * total);
        }''', '''        let mut i = iter;
        while i > 0 {
            total = 1.0 + ((self.0 / (i as f32)) * total);
            i -= 1;
        }'''),
 ('src/float/hypot.rs', '''        (self * self + rhs * rhs).sqrt()
    }''', '''        let squares = [self * self, rhs * rhs];
        (squares[0] + squares[1]).sqrt()
    }'''),
 ('src/float/powi.rs', '''        loop {
            if (abs_n & 1) == 1 {
                result *= base;
            }

            abs_n >>= 1;

            if abs_n == 0 {
                return Self(result);
            }

            base *= base;
        }''', '''        while abs_n > 1 {
            if (abs_n & 1) == 1 {
                result *= base;
            }
            abs_n >>= 1;
            base *= base;
        }
        result *= base;
        Self(result)'''),
]
V['b'] = [
 ('src/float/trunc.rs', '''        let exponent_clamped = i32::max(exponent, 0) as u32;
''', '''        let exponent_clamped = exponent as u32;
'''),
 ('src/float/round.rs', '''        if (self - trunc).abs() >= Self(0.5) {
            trunc + Self(1.0).copysign(self)
        } else {
            trunc
        }''', '''        let rest = (self - trunc).abs();
        match rest >= Self(0.5) {
            true => trunc + Self(1.0).copysign(self),
            false => trunc,
        }'''),
 ('src/float/div_euclid.rs', '''        if self % rhs >= Self::ZERO {
            q
        } else if rhs > Self::ZERO {
            q - Self::ONE
        } else {
            q + Self::ONE
        }''', '''        let negative = !(self % rhs >= Self::ZERO);
        if negative {
            let step = if rhs > Self::ZERO { Self(-1.0) } else { Self(1.0) };
            return q + step;
        }
        q'''),
 ('src/float/cos.rs', '''        x *= FRAC_1_PI / 2.0;
        x -= 0.25 + (x + 0.25).floor().0;
        x *= 16.0 * (x.abs() - 0.5);
        x += 0.225 * x * (x.abs() - 1.0);
        x''', '''        x *= FRAC_1_PI / 2.0;
        let whole = (x + 0.25).floor().0;
        x -= 0.25 + whole;
        let t = x * (16.0 * (x.abs() - 0.5));
        t + 0.225 * t * (t.abs() - 1.0)'''),
 ('src/float/ln.rs', '''        let ln_1to2_polynomial = -1.741_793_9
            + (2.821_202_6
                + (-1.469_956_8 + (0.447_179_55 - 0.056_570_851 * x_working) * x_working)
                    * x_working)
                * x_working;''', '''        let mut ln_1to2_polynomial = 0.447_179_55 - 0.056_570_851 * x_working;
        for k in [-1.469_956_8, 2.821_202_6, -1.741_793_9] {
            ln_1to2_polynomial = k + ln_1to2_polynomial * x_working;
        }'''),
 ('src/float/powf.rs', '''        if self >= Self::ZERO {
            (n * self.ln()).exp()
        } else if !n.is_integer() {
            Self::NAN
        } else if n.is_even() {
            // if n is even, then we know that the result will have no sign, so we can remove it
            (n * self.without_sign().ln()).exp()
        } else {
            // if n isn't even, we need to multiply by -1.0 at the end.
            -(n * self.without_sign().ln()).exp()
        }''', '''        if self >= Self::ZERO {
            return (n * self.ln()).exp();
        }
        if !n.is_integer() {
            return Self::NAN;
        }
        let magnitude = (n * self.without_sign().ln()).exp();
        if n.is_even() {
            magnitude
        } else {
            -magnitude
        }'''),
 ('src/float/acos.rs', '''        if self > 0.0 {
            ((Self::ONE - self * self).sqrt() / self).atan()
        } else if self == 0.0 {
            Self(PI / 2.0)
        } else {
            ((Self::ONE - self * self).sqrt() / self).atan() + PI
        }''', '''        if self == 0.0 {
            return Self(PI / 2.0);
        }
        let tangent = (Self::ONE - self * self).sqrt() / self;
        let angle = tangent.atan();
        if self > 0.0 {
            angle
        } else {
            angle + PI
        }'''),
 ('src/float/atan.rs', '''        let atan_1q = if n.is_infinite() {
            // The quotient below approaches `1.0`, but would be `inf / inf`
            Self::ONE
        } else {
            n / (1.0 + bx_a + n)
        };''', '''        let atan_1q = match n.is_infinite() {
            false => n / (1.0 + bx_a + n),
            true => Self::ONE,
        };'''),
 ('src/float/invsqrt.rs', '''            Self::from_bits(0x5f37_5a86 - (self.without_sign().to_bits() >> 1))''', '''            let halved = self.without_sign().to_bits() / 2;
            Self::from_bits(0x5f37_5a86 - halved)'''),
 ('src/float/recip.rs', '''        let sx = if x < 0.0 { F32(-1.0) } else { F32(1.0) };
        x *= sx;''', '''        let sx = if x < 0.0 { F32(-1.0) } else { F32(1.0) };
        x = x * sx;'''),
 ('src/float/tan.rs', '''        self.sin() / self.cos()''', '''        let (s, c) = self.sin_cos();
        s / c'''),
 ('src/float.rs', '''        (self.to_bits() & EXPONENT_MASK)
            .overflowing_shr(MANTISSA_BITS)
            .0''', '''        (self.to_bits() & EXPONENT_MASK) >> MANTISSA_BITS'''),
 ('src/float.rs', '''        F32(f32::sum(iter.map(f32::from)))''', '''        F32(iter.map(f32::from).sum())'''),
 ('src/float.rs', '''        F32(f32::product(iter.map(f32::from)))''', '''        let values = iter.map(|x| x.0);
        F32(values.product())'''),
 ('src/vector.rs', '''        let norm = self.magnitude();
        self.map(|n| C::from(n.into() / norm))''', '''        let norm = self.magnitude();
        let scaled = self.iter().map(|n| C::from(n.into() / norm));
        scaled.collect()'''),
 ('src/vector/vector3d.rs', '''        Self {
            x: (self.y * rhs.z) - (self.z * rhs.y),
            y: (self.z * rhs.x) - (self.x * rhs.z),
            z: (self.x * rhs.y) - (self.y * rhs.x),
        }''', '''        let minor = |a: C, b: C, c: C, d: C| (a * d) - (b * c);
        Self {
            x: minor(self.y, self.z, rhs.y, rhs.z),
            y: minor(self.z, self.x, rhs.z, rhs.x),
            z: minor(self.x, self.y, rhs.x, rhs.y),
        }'''),
 ('src/quaternion.rs', '''        let norm = self.norm();
        assert_ne!(norm, 0.0, "quaternion norm is zero");
        let n = F32(norm).invsqrt();

        self.scale(n)''', '''        let norm = self.norm();
        if norm == 0.0 {
            panic!("quaternion norm is zero");
        }
        self * F32(norm).invsqrt().0'''),
]
V['c'] = [
 ('src/statistics/mean.rs', '''        // wide enough for iterators of any length
        let mut num_items = 0u64;
        let mut sum = 0.0;

        for item in self {
            num_items += 1;
            sum += item;
        }

        sum / (num_items as f32)''', '''        let (sum, num_items) = self.fold((0.0, 0u64), |(sum, n), item| (sum + item, n + 1));
        sum / (num_items as f32)'''),
 ('src/statistics/variance.rs', '''        let mut sum = 0.0;

        for item in self {
            let n = (*item).into() - mean;
            sum += n * n;
        }

        sum / (self.len() as f32 - 1.0)''', '''        let sum = self
            .iter()
            .map(|item| (*item).into() - mean)
            .fold(0.0, |sum, d| sum + d * d);
        let count = self.len() as f32;

        sum / (count - 1.0)'''),
 ('src/statistics/trim.rs', '''        let sum = input_f32.fold(0.0, |sum, n| {
            let n = n - mean;
            sum + n * n
        });''', '''        let mut sum = 0.0;
        for n in input_f32 {
            let d = n - mean;
            sum += d * d;
        }'''),
 ('src/statistics/trim.rs', '''        while let Some(n) = self.input.next() {
            let distance = (f32::from(n) - self.mean).abs();

            // TODO(tarcieri): better method for finding outliers? (e.g. MAD, IQD)
            if (distance / self.stddev) < self.threshold {
                return Some(n);
            }
        }

        None''', '''        let (mean, stddev, threshold) = (self.mean, self.stddev, self.threshold);
        self.input.find(|n| {
            let distance = (f32::from(*n) - mean).abs();
            (distance / stddev) < threshold
        })'''),
 ('src/quaternion.rs', '''        let x = (qwsq + qxsq - qysq - qzsq) * v.x.into()
            + (2. * (qx * qy - qw * qz)) * v.y.into()
            + (2. * (qx * qz + qw * qy)) * v.z.into();

        let y = (2. * (qx * qy + qw * qz)) * v.x.into()
            + (qwsq - qxsq + qysq - qzsq) * v.y.into()
            + (2. * (qy * qz - qw * qx)) * v.z.into();

        let z = (2. * (qx * qz - qw * qy)) * v.x.into()
            + (2. * (qy * qz + qw * qx)) * v.y.into()
            + (qwsq - qxsq - qysq + qzsq) * v.z.into();

        F32x3 { x, y, z }''', '''        let rows = [
            [
                qwsq + qxsq - qysq - qzsq,
                2. * (qx * qy - qw * qz),
                2. * (qx * qz + qw * qy),
            ],
            [
                2. * (qx * qy + qw * qz),
                qwsq - qxsq + qysq - qzsq,
                2. * (qy * qz - qw * qx),
            ],
            [
                2. * (qx * qz - qw * qy),
                2. * (qy * qz + qw * qx),
                qwsq - qxsq - qysq + qzsq,
            ],
        ];
        let v: [f32; 3] = [v.x.into(), v.y.into(), v.z.into()];
        let apply = |row: &[f32; 3]| row[0] * v[0] + row[1] * v[1] + row[2] * v[2];

        F32x3 {
            x: apply(&rows[0]),
            y: apply(&rows[1]),
            z: apply(&rows[2]),
        }'''),
 ('src/quaternion.rs', '''        self.0 * self.0 + self.1 * self.1 + self.2 * self.2 + self.3 * self.3
    }''', '''        self.dot(self)
    }'''),
 ('src/quaternion.rs', '''        F32(self.norm()).sqrt().0''', '''        let norm = F32(self.norm());
        let magnitude = norm.sqrt();
        magnitude.into()'''),
 ('src/quaternion.rs', '''        assert_ne!(norm, 0.0, "quaternion norm is zero");
        self.conj() * F32(norm).inv().0''', '''        assert!(norm != 0.0, "quaternion norm is zero");
        let k = F32(norm).inv();
        self.conj().scale(k)'''),
 ('src/quaternion.rs', '''        let r = F32(2. * (self.0 * self.1 + self.2 * self.3))
            .atan2(F32(1. - 2. * (self.1 * self.1 + self.2 * self.2)));''', '''        let Quaternion(w, x, y, z) = *self;
        let r = F32(2. * (w * x + y * z)).atan2(F32(1. - 2. * (x * x + y * y)));'''),
 ('src/quaternion.rs', '''        self.scale(k)
    }''', '''        Self(self.0 * k, self.1 * k, self.2 * k, self.3 * k)
    }'''),
 ('src/quaternion.rs', '''        } * half_theta.sin().0;

        Self(half_theta.cos().0, v.x, v.y, v.z)''', '''        };
        let (sin, cos) = half_theta.sin_cos();
        let v = v * sin.0;

        Self(cos.0, v.x, v.y, v.z)'''),
 ('src/float/powi.rs', '''        if n < 0 {
            base = 1.0 / self;
        }

        if n == 0 {
            return Self::ONE;
        }
''', '''        if n == 0 {
            return Self::ONE;
        }
        if n.is_negative() {
            base = Self(1.0 / self.0);
        }
'''),
 ('src/float/fract.rs', '''        let new_exponent_bits = (EXPONENT_BIAS - (exponent_shift))
            .overflowing_shl(MANTISSA_BITS)
            .0;''', '''        let new_exponent_bits = (EXPONENT_BIAS - exponent_shift) << MANTISSA_BITS;'''),
 ('src/float/log.rs', '''        (Self::ONE / base.ln()) * self.ln()''', '''        let scale = Self::ONE / base.ln();
        self.ln() * scale'''),
 ('src/float/inv.rs', '''                if self.0.is_infinite() {
                    // 1/∞ = 0; by definition.
                    if self.0.is_sign_positive() {
                        Self(0.0)
                    } else {
                        Self(-0.0)
                    }
                } else if self.0.is_nan() {
                    Self(f32::NAN)
                } else {
                    // Values larger than the threshold result in zero for 1/x
                    Self(0.0).copysign(self)
                }''', '''                if self.0.is_nan() {
                    Self(f32::NAN)
                } else {
                    Self(0.0).copysign(self)
                }'''),
 ('src/float/sqrt.rs', '''            Self::from_bits((self.without_sign().to_bits() + 0x3f80_0000) >> 1)''', '''            let bits = self.without_sign().to_bits();
            Self::from_bits((bits >> 1) + 0x1fc0_0000)'''),
 ('src/float/ceil.rs', '''        -(-self).floor()''', '''        let negated = Self(-self.0);
        let floor = negated.floor();
        -floor'''),
 ('src/vector/vector2d.rs', '''        match i {
            0 => &self.x,
            1 => &self.y,
            _ => panic!("index out of range"),
        }''', '''        if i == 0 {
            &self.x
        } else if i == 1 {
            &self.y
        } else {
            panic!("index out of range")
        }'''),
 ('src/vector/vector3d.rs', '''        let x = iter.next().expect("no x-axis component in slice");
        let y = iter.next().expect("no y-axis component in slice");
        let z = iter.next().expect("no z-axis component in slice");

        assert!(
            iter.next().is_none(),
            "too many items for 3-dimensional vector"
        );

        Self { x, y, z }''', '''        match (iter.next(), iter.next(), iter.next()) {
            (Some(x), Some(y), Some(z)) => {
                if iter.next().is_some() {
                    panic!("too many items for 3-dimensional vector");
                }
                Self { x, y, z }
            }
            _ => panic!("too few items for 3-dimensional vector"),
        }'''),
]


V['d'] = [
 ('src/float/abs.rs', '''Self::from_bits(self.to_bits() & !SIGN_MASK)''', '''Self::from_bits((self.to_bits() << 1) >> 1)'''),
 ('src/float/abs.rs', '''use super::{F32, SIGN_MASK};''', '''use super::F32;'''),
 ('src/float/copysign.rs', '''        let source_bits = sign.to_bits();
        let source_sign = source_bits & SIGN_MASK;
        let signless_destination_bits = self.to_bits() & !SIGN_MASK;
        Self::from_bits(signless_destination_bits | source_sign)''', '''        let magnitude = self.abs();
        if sign.to_bits() & SIGN_MASK == 0 {
            magnitude
        } else {
            -magnitude
        }'''),
 ('src/float/trunc.rs', '''        let fractional_mask = fractional_part.overflowing_shr(exponent_clamped).0;

        Self::from_bits(x_bits & !fractional_mask)''', '''        let mask = MANTISSA_MASK >> exponent_clamped;
        Self::from_bits(x_bits & !mask)'''),
 ('src/float/fract.rs', '''        // find the part of the fraction that would be left over
        let fractional_part = x_bits.overflowing_shl(exponent as u32).0 & MANTISSA_MASK;

        // if there isn't a fraction we can just return 0
        if fractional_part == 0 {
            // TODO: most people don't actually care about -0.0,
            // so would it be better to just not copysign?
            return Self(0.0).copysign(self);
        }

        // Note: alternatively this could use -1.0, but it's assumed subtraction would be more costly
        // example: 'let new_exponent_bits = 127_u32.overflowing_shl(23_u32).0)) - 1.0'
        let exponent_shift: u32 = (fractional_part.leading_zeros() - (32 - MANTISSA_BITS)) + 1;

        let fractional_normalized: u32 =
            fractional_part.overflowing_shl(exponent_shift).0 & MANTISSA_MASK;

        let new_exponent_bits = (EXPONENT_BIAS - (exponent_shift))
            .overflowing_shl(MANTISSA_BITS)
            .0;

        Self::from_bits(fractional_normalized | new_exponent_bits).copysign(self)''', '''        (self - self.trunc()).copysign(self)'''),
 ('src/float/fract.rs', '''        let x_bits = self.to_bits();
''', ''''''),
 ('src/float/fract.rs', '''use super::{EXPONENT_BIAS, MANTISSA_BITS, MANTISSA_MASK};''', '''use super::MANTISSA_BITS;'''),
 ('src/float/round.rs', '''        if (self - trunc).abs() >= Self(0.5) {
            trunc + Self(1.0).copysign(self)
        } else {
            trunc
        }''', '''        let rest = self - trunc;
        if rest >= Self(0.5) {
            trunc + 1.0
        } else if rest <= Self(-0.5) {
            trunc - 1.0
        } else {
            trunc
        }'''),
 ('src/float/cos.rs', '''        let mut x = self;
        x *= FRAC_1_PI / 2.0;
        x -= 0.25 + (x + 0.25).floor().0;
        x *= 16.0 * (x.abs() - 0.5);
        x += 0.225 * x * (x.abs() - 1.0);
        x
    }''', '''        let turns = self * (FRAC_1_PI / 2.0);
        let phase = turns - (0.25 + (turns + 0.25).floor().0);
        Self::smooth(phase * (16.0 * (phase.abs() - 0.5)))
    }

    /// One step of refinement of the parabola
    fn smooth(parabola: Self) -> Self {
        let correction = 0.225 * parabola * (parabola.abs() - 1.0);
        parabola + correction
    }'''),
 ('src/float/exp.rs', '''        for i in (1..=iter).rev() {
            total = 1.0 + ((self.0 / (i as f32)) * total);
        }''', '''        for k in 0..iter {
            let divisor = (iter - k) as f32;
            total = (total * (self.0 / divisor)) + 1.0;
        }'''),
 ('src/float/exp.rs', '''        if fract_exponent < -(EXPONENT_BIAS as i32) {
            return Self::ZERO;
        }

        if fract_exponent > (EXPONENT_BIAS as i32) {
            return Self::INFINITY;
        }

        fract_exp.set_exponent(fract_exponent)''', '''        let bias = EXPONENT_BIAS as i32;
        match fract_exponent {
            e if e > bias => Self::INFINITY,
            e if e < -bias => Self::ZERO,
            e => fract_exp.set_exponent(e),
        }'''),
 ('src/float/ln.rs', '''        if self.is_infinite() {
            return self;
        }
''', '''        if self == Self::INFINITY {
            return Self::INFINITY;
        }
'''),
 ('src/float/ln.rs', '''        (base2_exponent as f32) * LN_2 + ln_1to2_polynomial''', '''        let whole = LN_2 * (base2_exponent as f32);
        ln_1to2_polynomial + whole'''),
 ('src/float/powi.rs', '''        loop {
            if (abs_n & 1) == 1 {
                result *= base;
            }

            abs_n >>= 1;

            if abs_n == 0 {
                return Self(result);
            }

            base *= base;
        }''', '''        while abs_n != 0 {
            if (abs_n & 1) == 1 {
                result *= base;
            }

            base *= base;
            abs_n >>= 1;
        }
        Self(result)'''),
 ('src/float/atan2.rs', '''        // Extract sign bits from floating point values
        let ux_s = SIGN_MASK & x.to_bits();
        let uy_s = SIGN_MASK & y.to_bits();

        // Determine quadrant offset
        let q = ((!ux_s & uy_s) >> 29 | ux_s >> 30) as f32;
''', ''''''),
 ('src/float/atan2.rs', '''        // Translate it to the proper quadrant
        let uatan_2q = (ux_s ^ uy_s) | atan_1q.to_bits();
        let n = Self(q) + Self::from_bits(uatan_2q);
''', '''        let left = x.to_bits() & SIGN_MASK != 0;
        let below = y.to_bits() & SIGN_MASK != 0;
        let n = match (left, below) {
            (false, false) => atan_1q,
            (true, false) => Self(2.0) - atan_1q,
            (true, true) => Self(2.0) + atan_1q,
            (false, true) => Self(4.0) - atan_1q,
        };
'''),
 ('src/float/div_euclid.rs', '''        if self % rhs >= Self::ZERO {
            q
        } else if rhs > Self::ZERO {
            q - Self::ONE
        } else {
            q + Self::ONE
        }''', '''        let remainder = self % rhs;
        if remainder >= Self::ZERO {
            return q;
        }
        q - if rhs > Self::ZERO { 1.0 } else { -1.0 }'''),
 ('src/float/rem_euclid.rs', '''        if r >= Self::ZERO {
            r
        } else {
            r + rhs.abs()
        }''', '''        if r < Self::ZERO {
            r + rhs.abs()
        } else {
            r
        }'''),
 ('src/float/sqrt.rs', '''        if self >= Self::ZERO {
            Self::from_bits((self.without_sign().to_bits() + 0x3f80_0000) >> 1)
        } else {
            Self::NAN
        }''', '''        if self.is_nan() || self < Self::ZERO {
            return Self::NAN;
        }
        const BIAS: u32 = 127 << 23;
        Self::from_bits((self.abs().to_bits() + BIAS) / 2)'''),
 ('src/float/invsqrt.rs', '''        if self >= Self::ZERO {
            Self::from_bits(0x5f37_5a86 - (self.without_sign().to_bits() >> 1))
        } else {
            Self::NAN
        }''', '''        if !(self >= Self::ZERO) {
            return Self::NAN;
        }
        const MAGIC: u32 = 0x5f37_5a86;
        let half = self.without_sign().to_bits() >> 1;
        Self::from_bits(MAGIC.wrapping_sub(half))'''),
 ('src/float/inv.rs', '''        match 0x7f00_0000_u32.checked_sub(self.without_sign().to_bits()) {
            Some(result) => Self(f32::from_bits(result)).copysign(self),''', '''        const ONE_BITS: u32 = 0x7f00_0000;
        let bits = self.abs().to_bits();
        let difference = if bits <= ONE_BITS {
            Some(ONE_BITS - bits)
        } else {
            None
        };
        match difference {
            Some(result) => Self::from_bits(result).copysign(self),'''),
 ('src/float/recip.rs', '''            8.0 + w * (-28.0 + w * (56.0 + w * (-70.0 + w * (56.0 + w * (-28.0 + w * (8.0 - w))))));''', '''            {
                const COEFFICIENTS: [f32; 6] = [-28.0, 56.0, -70.0, 56.0, -28.0, 8.0];
                let mut p = COEFFICIENTS[0] + w * (8.0 - w);
                for c in &COEFFICIENTS[1..] {
                    p = *c + w * p;
                }
                p
            };'''),
 ('src/float/hypot.rs', '''(self * self + rhs * rhs).sqrt()''', '''self.mul_add(self, rhs * rhs).sqrt()'''),
 ('src/float/asin.rs', '''(self * (Self::ONE - self * self).invsqrt()).atan()''', '''let cos_squared = Self::ONE - self * self;
        let tangent = cos_squared.invsqrt() * self;
        tangent.atan()'''),
 ('src/float/tan.rs', '''self.sin() / self.cos()''', '''let c = self.cos();
        let s = self.sin();
        s / c'''),
 ('src/float/powf.rs', '''        if self >= Self::ZERO {
            (n * self.ln()).exp()
        } else if !n.is_integer() {
            Self::NAN
        } else if n.is_even() {
            // if n is even, then we know that the result will have no sign, so we can remove it
            (n * self.without_sign().ln()).exp()
        } else {
            // if n isn't even, we need to multiply by -1.0 at the end.
            -(n * self.without_sign().ln()).exp()
        }
    }''', '''        if self >= Self::ZERO {
            return self.powf_magnitude(n);
        }
        match (n.is_integer(), n.is_even()) {
            (false, _) => Self::NAN,
            (true, true) => self.powf_magnitude(n),
            (true, false) => -self.powf_magnitude(n),
        }
    }

    fn powf_magnitude(self, n: Self) -> Self {
        let exponent = n * self.without_sign().ln();
        exponent.exp()
    }'''),
 ('src/float.rs', '''        let exponent = self.extract_exponent_value();
        let self_bits = self.to_bits();

        // if exponent is negative the magnitude is below one, only zero is an integer there
        if exponent < 0 {
            return *self == Self::ZERO;
        }''', '''        let self_bits = self.to_bits();
        let exponent = self.extract_exponent_value();

        // if exponent is negative the magnitude is below one, only zero is an integer there
        if exponent <= -1 {
            return self_bits << 1 == 0;
        }'''),
 ('src/float.rs', '''impl Add<f32> for F32 {
    type Output = F32;

    #[inline]
    fn add(self, rhs: f32) -> F32 {
        F32(self.0 + rhs)
    }
}''', '''impl Add<f32> for F32 {
    type Output = F32;

    #[inline]
    fn add(self, rhs: f32) -> F32 {
        self + F32(rhs)
    }
}'''),
 ('src/float.rs', '''        self.partial_cmp(&other.0)''', '''        F32(*self).partial_cmp(other)'''),
 ('src/vector/iter.rs', '''        let item = self.vector.get(self.position);

        if item.is_some() {
            self.position += 1;
        }

        item''', '''        let item = self.vector.get(self.position)?;
        self.position += 1;
        Some(item)'''),
 ('src/vector/vector3d.rs', '''        match index {
            0 => Some(self.x),
            1 => Some(self.y),
            2 => Some(self.z),
            _ => None,
        }''', '''        self.to_array().get(index).copied()'''),
 ('src/vector.rs', '''        self.iter().map(|n| n * n).sum()''', '''        let squared = |n: C| n * n;
        self.iter().map(squared).sum()'''),
 ('src/vector/vector2d.rs', '''        Vector3d::from(*self) * Vector3d::from(rhs)''', '''        Vector3d {
            x: C::default(),
            y: C::default(),
            z: self.perpendicular_dot(rhs),
        }'''),
 ('src/quaternion.rs', '''        let x = (qwsq + qxsq - qysq - qzsq) * v.x.into()
            + (2. * (qx * qy - qw * qz)) * v.y.into()
            + (2. * (qx * qz + qw * qy)) * v.z.into();
''', '''        let (vx, vy, vz): (f32, f32, f32) = (v.x.into(), v.y.into(), v.z.into());
        let x = vx * (qwsq - qysq + qxsq - qzsq)
            + vy * (2. * (qx * qy - qw * qz))
            + vz * (2. * (qw * qy + qx * qz));
'''),
 ('src/quaternion.rs', '''        let n = F32(norm).invsqrt();

        self.scale(n)''', '''        self.scale(F32(norm).invsqrt().0)'''),
 ('src/quaternion.rs', '''            self.0 * other.0 - self.1 * other.1 - self.2 * other.2 - self.3 * other.3,
            self.0 * other.1 + self.1 * other.0 + self.2 * other.3 - self.3 * other.2,''', '''            self.0 * other.0 - (self.1 * other.1 + self.2 * other.2 + self.3 * other.3),
            self.1 * other.0 + self.0 * other.1 + (self.2 * other.3 - self.3 * other.2),'''),
 ('src/quaternion.rs', '''        let p = F32(sin_p).asin();
        let y = F32(2. * (self.0 * self.3 + self.1 * self.2))
            .atan2(F32(1. - 2. * (self.2 * self.2 + self.3 * self.3)));
''', '''        let double_yaw_sin = 2. * (self.0 * self.3 + self.1 * self.2);
        let double_yaw_cos = 1. - 2. * (self.2 * self.2 + self.3 * self.3);
        let y = F32(double_yaw_sin).atan2(F32(double_yaw_cos));
        let p = F32(sin_p).asin();
'''),
 ('src/statistics/mean.rs', '''        for item in self {
            num_items += 1;
            sum += item;
        }
''', '''        self.for_each(|item| {
            sum += item;
            num_items += 1;
        });
'''),
 ('src/statistics/variance.rs', '''        for item in self {
            let n = (*item).into() - mean;
            sum += n * n;
        }
''', '''        let mut i = 0;
        while i < self.len() {
            let value: f32 = self[i].into();
            let deviation = value - mean;
            sum += deviation * deviation;
            i += 1;
        }
'''),
 ('src/statistics/trim.rs', '''        while let Some(n) = self.input.next() {
            let distance = (f32::from(n) - self.mean).abs();

            // TODO(tarcieri): better method for finding outliers? (e.g. MAD, IQD)
            if (distance / self.stddev) < self.threshold {
                return Some(n);
            }
        }

        None''', '''        loop {
            let n = self.input.next()?;
            let deviations = (f32::from(n) - self.mean).abs() / self.stddev;
            if self.threshold > deviations {
                break Some(n);
            }
        }'''),
]

V['e'] = [
 ('src/float/acos.rs', '''        if self > 0.0 {
            ((Self::ONE - self * self).sqrt() / self).atan()
        } else if self == 0.0 {
            Self(PI / 2.0)
        } else {
            ((Self::ONE - self * self).sqrt() / self).atan() + PI
        }
    }''', '''        if self == 0.0 {
            return Self(PI / 2.0);
        }
        let angle = self.cotangent_like().atan();
        if self > 0.0 {
            angle
        } else {
            angle + PI
        }
    }

    /// sin / cos for an angle of the given cosine
    fn cotangent_like(self) -> Self {
        let sine = (Self::ONE - self * self).sqrt();
        sine / self
    }'''),
 ('src/float/asin.rs', '''        (self * (Self::ONE - self * self).invsqrt()).atan()
    }''', '''        let cos_sq = Self::ONE - self * self;
        let tangent = cos_sq.invsqrt() * self;
        tangent.atan()
    }'''),
 ('src/float/atan.rs', '''        let ux_s = SIGN_MASK & self.to_bits();
''', '''        // the approximation of the positive branch, as a helper
        fn first_quadrant(bx: F32, square: F32) -> F32 {
            let n = bx + square;
            match n == F32::INFINITY {
                true => F32::ONE,
                false => n / ((F32::ONE + bx) + n),
            }
        }
        let sign = self.to_bits() & SIGN_MASK;
'''),
 ('src/float/atan.rs', '''        let n = bx_a + self * self;
        let atan_1q = if n.is_infinite() {
            // The quotient below approaches `1.0`, but would be `inf / inf`
            Self::ONE
        } else {
            n / (1.0 + bx_a + n)
        };
''', '''        let atan_1q = first_quadrant(bx_a, self * self);
'''),
 ('src/float/atan.rs', '''Self::from_bits(ux_s | atan_1q.to_bits())''', '''Self::from_bits(atan_1q.to_bits() | sign)'''),
 ('src/float/atan2.rs', '''        let scale = if self.abs() > rhs.abs() {
            self.abs()
        } else {
            rhs.abs()
        };
        if self == Self::ZERO && rhs == Self::ZERO {
            return Self::ZERO;
        }
''', '''        let (abs_y, abs_x) = (self.abs(), rhs.abs());
        let scale = match abs_y > abs_x {
            true => abs_y,
            false => abs_x,
        };
        if (self, rhs) == (Self::ZERO, Self::ZERO) {
            return Self::ZERO;
        }
'''),
 ('src/float/atan2.rs', '''        let q = ((!ux_s & uy_s) >> 29 | ux_s >> 30) as f32;
''', '''        let q: f32 = if ux_s != 0 {
            2.0
        } else if uy_s != 0 {
            4.0
        } else {
            0.0
        };
'''),
 ('src/float/ceil.rs', '''        -(-self).floor()
''', '''        let below = (-self).floor();
        -below
'''),
 ('src/float/cosh.rs', '''        let exp_x = self.exp_ln2_approx(5);
        let exp_neg_x = (-self).exp_ln2_approx(5);
        (exp_x + exp_neg_x) / 2.0
''', '''        const TERMS: u32 = 5;
        let sum: Self = [self, -self]
            .iter()
            .map(|x| x.exp_ln2_approx(TERMS))
            .sum();
        sum * 0.5
'''),
 ('src/float/cos.rs', '''        let mut x = self;
''', '''        let x = self * (FRAC_1_PI / 2.0);
        let turn = x + 0.25;
        let x = x - (turn.floor() + 0.25);
        let parabola = x * (16.0 * (x.abs() - 0.5));
        Self::smooth(parabola)
    }

    /// second step, a weighted correction
    #[allow(dead_code)]
    fn smooth(p: Self) -> Self {
        p + 0.225 * p * (p.abs() - 1.0)
    }

    #[allow(dead_code)]
    fn cos_in_place(self) -> Self {
        let mut x = self;
'''),
 ('src/float/exp.rs', '''        let mut total = 1.0;

        for i in (1..=iter).rev() {
            total = 1.0 + ((self.0 / (i as f32)) * total);
        }

        Self(total)
''', '''        let series = (1..=iter)
            .rev()
            .map(|i| self.0 / (i as f32))
            .fold(1.0, |total, ratio| 1.0 + ratio * total);
        series.into()
'''),
 ('src/float/floor.rs', '''        let mut res = (self.0 as i32) as f32;

        if self.0 < res {
            res -= 1.0;
        }

        Self(res)
''', '''        let res = (self.0 as i32) as f32;
        let excess = if res > self.0 { 1.0 } else { 0.0 };
        Self(res - excess)
'''),
 ('src/float/fract.rs', '''        if exponent < 0 {
            return self;
        }
''', '''        match exponent {
            i32::MIN..=-1 => return self,
            _ => (),
        }
'''),
 ('src/float/ln.rs', '''        let ln_1to2_polynomial = -1.741_793_9
            + (2.821_202_6
                + (-1.469_956_8 + (0.447_179_55 - 0.056_570_851 * x_working) * x_working)
                    * x_working)
                * x_working;
''', '''        const COEFFICIENTS: [f32; 5] = [-1.741_793_9, 2.821_202_6, -1.469_956_8, 0.447_179_55, -0.056_570_851];
        let mut ln_1to2_polynomial = Self(COEFFICIENTS[4]);
        for &c in COEFFICIENTS[..4].iter().rev() {
            ln_1to2_polynomial = ln_1to2_polynomial * x_working + c;
        }
'''),
 ('src/float/log.rs', '''        (Self::ONE / base.ln()) * self.ln()
''', '''        let (numerator, denominator) = (self.ln(), base.ln());
        numerator * (1.0 / denominator)
'''),
 ('src/float/recip.rs', '''        v.0 *=
            8.0 + w * (-28.0 + w * (56.0 + w * (-70.0 + w * (56.0 + w * (-28.0 + w * (8.0 - w))))));
''', '''        let newton = [8.0, -28.0, 56.0, -70.0, 56.0, -28.0, 8.0]
            .iter()
            .rev()
            .fold(F32(-1.0), |sum, &c| c + w * sum);
        v *= newton;
'''),
 ('src/float/powf.rs', '''        if self >= Self::ZERO {
            (n * self.ln()).exp()
''', '''        let through_exp = |x: Self| (x.ln() * n).exp();
        if self >= Self::ZERO {
            through_exp(self)
'''),
 ('src/float/powf.rs', '''            (n * self.without_sign().ln()).exp()
        } else {
''', '''            through_exp(-self)
        } else {
'''),
 ('src/float/powf.rs', '''            -(n * self.without_sign().ln()).exp()
''', '''            -through_exp(self.abs())
'''),
 ('src/float/powi.rs', '''        loop {
            if (abs_n & 1) == 1 {
                result *= base;
            }

            abs_n >>= 1;

            if abs_n == 0 {
                return Self(result);
            }

            base *= base;
        }
''', '''        while abs_n != 0 {
            let odd = abs_n % 2 == 1;
            abs_n /= 2;
            result = if odd { result * base.0 } else { result };
            base = if abs_n > 0 { base * base } else { base };
        }
        Self(result)
'''),
 ('src/float/round.rs', '''        let trunc = self.trunc();

        // Note: the subtraction is exact, adding `0.5` to `self` would not be
        if (self - trunc).abs() >= Self(0.5) {
            trunc + Self(1.0).copysign(self)
        } else {
            trunc
        }
''', '''        let trunc = self.trunc();
        let rest = self - trunc;
        if rest >= 0.5 {
            trunc + Self::ONE
        } else if rest <= -0.5 {
            trunc - Self::ONE
        } else {
            trunc
        }
'''),
 ('src/float/sin.rs', '''        (self - PI / 2.0).cos()
''', '''        const QUARTER: F32 = F32(PI / 2.0);
        F32::cos(self - QUARTER)
'''),
 ('src/float/tan.rs', '''        self.sin() / self.cos()
''', '''        let (sine, cosine) = self.sin_cos();
        sine / cosine
'''),
 ('src/quaternion.rs', '''        self.0 * self.0 + self.1 * self.1 + self.2 * self.2 + self.3 * self.3
''', '''        self.dot(self)
'''),
 ('src/quaternion.rs', '''        Self(self.0 * k, self.1 * k, self.2 * k, self.3 * k)
''', '''        let mut parts = self.to_array();
        for part in parts.iter_mut() {
            *part *= k;
        }
        Self::from(parts)
'''),
 ('src/quaternion.rs', '''        Self(
            self.0 + rhs.0,
            self.1 + rhs.1,
            self.2 + rhs.2,
            self.3 + rhs.3,
        )
''', '''        let (a, b) = (self.to_array(), rhs.to_array());
        let mut c = [0.0; 4];
        for i in 0..4 {
            c[i] = a[i] + b[i];
        }
        c.into()
'''),
 ('src/quaternion.rs', '''        Self(
            self.0 - rhs.0,
            self.1 - rhs.1,
            self.2 - rhs.2,
            self.3 - rhs.3,
        )
''', '''        let mut parts = self.to_array();
        for (l, r) in parts.iter_mut().zip(rhs.to_array()) {
            *l -= r;
        }
        Self::new(parts[0], parts[1], parts[2], parts[3])
'''),
 ('src/quaternion.rs', '''        let qwsq = qw * qw;
        let qxsq = qx * qx;
        let qysq = qy * qy;
        let qzsq = qz * qz;
''', '''        let [qwsq, qxsq, qysq, qzsq] = self.to_array().map(|c| c * c);
'''),
 ('src/quaternion.rs', '''        let r = F32(2. * (self.0 * self.1 + self.2 * self.3))
            .atan2(F32(1. - 2. * (self.1 * self.1 + self.2 * self.2)));
''', '''        fn turn(cross: f32, squares: f32) -> F32 {
            F32(2. * cross).atan2(F32(1. - 2. * squares))
        }
        let Quaternion(w, x, y, z) = *self;
        let r = turn(w * x + y * z, x * x + y * y);
'''),
 ('src/quaternion.rs', '''        let y = F32(2. * (self.0 * self.3 + self.1 * self.2))
            .atan2(F32(1. - 2. * (self.2 * self.2 + self.3 * self.3)));
''', '''        let y = turn(w * z + x * y, y * y + z * z);
'''),
 ('src/statistics/mean.rs', '''        // wide enough for iterators of any length
        let mut num_items = 0u64;
        let mut sum = 0.0;

        for item in self {
            num_items += 1;
            sum += item;
        }

        sum / (num_items as f32)
''', '''        let mut count = 0u64;
        let total = self.inspect(|_| count += 1).fold(0.0, |a, b| a + b);
        total / count as f32
'''),
 ('src/statistics/variance.rs', '''        let mut sum = 0.0;

        for item in self {
            let n = (*item).into() - mean;
            sum += n * n;
        }

        sum / (self.len() as f32 - 1.0)
''', '''        let squared_distance = |item: &T| {
            let n = (*item).into() - mean;
            n * n
        };
        let sum: f32 = self.iter().map(squared_distance).sum();
        sum / (self.len() as f32 - 1.0)
'''),
 ('src/statistics/trim.rs', '''        while let Some(n) = self.input.next() {
            let distance = (f32::from(n) - self.mean).abs();

            // TODO(tarcieri): better method for finding outliers? (e.g. MAD, IQD)
            if (distance / self.stddev) < self.threshold {
                return Some(n);
            }
        }

        None
''', '''        let (mean, stddev, threshold) = (self.mean, self.stddev, self.threshold);
        self.input
            .find(|&n| (f32::from(n) - mean).abs() / stddev < threshold)
'''),
 ('src/vector.rs', '''        let differences = self
            .iter()
            .zip(rhs.iter())
            .map(|(a, b)| a.into() - b.into());

        differences.map(|n| n * n).sum::<f32>().sqrt()
''', '''        let mut total = 0.0f32;
        for axis in 0..Self::AXES {
            if let (Some(a), Some(b)) = (self.get(axis), rhs.get(axis)) {
                let n: f32 = a.into() - b.into();
                total += n * n;
            }
        }
        F32Ext::sqrt(total)
'''),
 ('src/vector.rs', '''        self.iter().map(|n| n * n).sum()
''', '''        C::sum(self.iter().map(|n| n * n))
'''),
 ('src/vector.rs', '''        let norm = self.magnitude();
        self.map(|n| C::from(n.into() / norm))
''', '''        let norm = self.magnitude();
        let unit = |n: C| -> C {
            let n: f32 = n.into();
            (n / norm).into()
        };
        self.map(unit)
'''),
 ('src/vector/iter.rs', '''        let item = self.vector.get(self.position);

        if item.is_some() {
            self.position += 1;
        }

        item
''', '''        self.vector.get(self.position).map(|item| {
            self.position += 1;
            item
        })
'''),
 ('src/vector/vector3d.rs', '''        (self.x * rhs.x) + (self.y * rhs.y) + (self.z * rhs.z)
    }

''', '''        let [a, b, c] = [self.x * rhs.x, self.y * rhs.y, self.z * rhs.z];
        a + b + c
    }

'''),
 ('src/vector/vector3d.rs', '''        Self {
            x: (self.y * rhs.z) - (self.z * rhs.y),
            y: (self.z * rhs.x) - (self.x * rhs.z),
            z: (self.x * rhs.y) - (self.y * rhs.x),
        }
''', '''        let (a, b) = (self.to_array(), rhs.to_array());
        let minor = |i: usize| {
            let (j, k) = ((i + 1) % 3, (i + 2) % 3);
            a[j] * b[k] - a[k] * b[j]
        };
        Self {
            x: minor(0),
            y: minor(1),
            z: minor(2),
        }
'''),
 ('src/vector/vector3d.rs', '''        let x = iter.next().expect("no x-axis component in slice");
        let y = iter.next().expect("no y-axis component in slice");
        let z = iter.next().expect("no z-axis component in slice");

        assert!(
            iter.next().is_none(),
            "too many items for 3-dimensional vector"
        );

        Self { x, y, z }
''', '''        let mut parts = [C::default(); 3];
        for part in parts.iter_mut() {
            *part = match iter.next() {
                Some(component) => component,
                None => panic!("not enough components in slice"),
            };
        }
        if iter.next().is_some() {
            panic!("too many items for 3-dimensional vector");
        }
        Self::from(parts)
'''),
 ('src/vector/vector3d.rs', '''        Self {
            x: self.x + rhs.x,
            y: self.y + rhs.y,
            z: self.z + rhs.z,
        }
''', '''        let mut sum = self;
        sum.x = sum.x + rhs.x;
        sum.y = sum.y + rhs.y;
        sum.z = sum.z + rhs.z;
        sum
'''),
 ('src/vector/vector3d.rs', '''        Self {
            x: self.x * rhs,
            y: self.y * rhs,
            z: self.z * rhs,
        }
''', '''        let scaled = self.to_array().map(|c| c * rhs);
        scaled.into()
'''),
 ('src/vector/vector3d.rs', '''        self.x = self.x / rhs;
        self.y = self.y / rhs;
        self.z = self.z / rhs;
''', '''        *self = *self / rhs;
'''),
 ('src/vector/vector3d.rs', '''        iter.fold(Vector3d::default(), |prev, current| prev + current)
''', '''        let mut total = Self::default();
        iter.for_each(|v| total = total + v);
        total
'''),
 ('src/vector/vector2d.rs', '''        Self {
            x: self.x - rhs.x,
            y: self.y - rhs.y,
        }
''', '''        let Self { x, y } = rhs;
        Self {
            x: self.x - x,
            y: self.y - y,
        }
'''),
]


V['f'] = [
 ('src/float.rs', '''fn extract_exponent_bits(self) -> u32 {
        (self.to_bits() & EXPONENT_MASK)
            .overflowing_shr(MANTISSA_BITS)
            .0
''', '''fn extract_exponent_bits(self) -> u32 {
        (self.to_bits() << 1) >> (MANTISSA_BITS + 1)
'''),
 ('src/float.rs', '''fn extract_exponent_value(self) -> i32 {
        (self.extract_exponent_bits() as i32) - EXPONENT_BIAS as i32
''', '''fn extract_exponent_value(self) -> i32 {
        i32::from((self.to_bits() >> MANTISSA_BITS) as u8) - EXPONENT_BIAS as i32
'''),
 ('src/float.rs', '''fn without_sign(self) -> Self {
        Self::from_bits(self.to_bits() & !SIGN_MASK)
''', '''fn without_sign(self) -> Self {
        if self.is_sign_negative() {
            -self
        } else {
            self
        }
'''),
 ('src/float.rs', '''fn set_exponent(self, exponent: i32) -> Self {
        debug_assert!(exponent <= 127 && exponent >= -128);
        let without_exponent: u32 = self.to_bits() & !EXPONENT_MASK;
        let only_exponent: u32 = ((exponent + EXPONENT_BIAS as i32) as u32)
            .overflowing_shl(MANTISSA_BITS)
            .0;

        Self::from_bits(without_exponent | only_exponent)
''', '''fn set_exponent(self, exponent: i32) -> Self {
        debug_assert!((-128..=127).contains(&exponent));
        let biased = (exponent + EXPONENT_BIAS as i32) as u32;
        let kept = self.to_bits() - (self.extract_exponent_bits() << MANTISSA_BITS);
        Self::from_bits(kept + (biased << MANTISSA_BITS))
'''),
 ('src/float.rs', '''fn is_integer(&self) -> bool {
        let exponent = self.extract_exponent_value();
        let self_bits = self.to_bits();

        // if exponent is negative the magnitude is below one, only zero is an integer there
        if exponent < 0 {
            return *self == Self::ZERO;
        }

        // no bits are left for a fraction, shifting by such an exponent would wrap around
        if exponent >= MANTISSA_BITS as i32 {
            return true;
        }

        // find the part of the fraction that would be left over
        let fractional_part = (self_bits).overflowing_shl(exponent as u32).0 & MANTISSA_MASK;

        // if fractional part contains anything, we know it *isn't* an integer.
        // if zero there will be nothing in the fractional part
        // if it is whole, there will be nothing in the fractional part
        fractional_part == 0
''', '''fn is_integer(&self) -> bool {
        self.extract_exponent_value() >= MANTISSA_BITS as i32 || self.fract() == Self::ZERO
'''),
 ('src/float.rs', '''fn is_even(&self) -> bool {
        // any floating point value that doesn't fit in an i32 range is even,
        // and will lose 1's digit precision at exp values of 23+
        if self.extract_exponent_value() >= 31 {
            true
        } else {
            (self.0 as i32) % 2 == 0
        }
''', '''fn is_even(&self) -> bool {
        let half = F32(self.0 / 2.0);
        self.extract_exponent_value() >= 31 || half.trunc() * 2.0 == self.trunc()
'''),
 ('src/float.rs', '''        self.0 += rhs.0;''', '''        *self = *self + rhs;'''),
 ('src/float.rs', '''        self.0 -= rhs.0;''', '''        *self = F32(self.0 - rhs.0);'''),
 ('src/float.rs', '''        *self *= rhs.0;''', '''        *self = (rhs * *self).0;'''),
 ('src/float.rs', '''        self.0.eq(other)''', '''        *self == F32(*other)'''),
 ('src/float.rs', '''        F32(f32::sum(iter.map(f32::from)))''', '''        let mut total = F32(-0.0);
        for item in iter {
            total += item;
        }
        total'''),
 ('src/float.rs', '''        F32(f32::product(iter.map(f32::from)))''', '''        iter.fold(F32::ONE, |product, item| product * item)'''),
 ('src/float/sqrt.rs', '''pub fn sqrt(self) -> Self {
        if self >= Self::ZERO {
            Self::from_bits((self.without_sign().to_bits() + 0x3f80_0000) >> 1)
        } else {
            Self::NAN
        }
''', '''pub fn sqrt(self) -> Self {
        match self.0.partial_cmp(&0.0) {
            None | Some(core::cmp::Ordering::Less) => Self::NAN,
            Some(_) => {
                let bits = self.without_sign().to_bits();
                Self::from_bits((bits >> 1) + 0x1fc0_0000)
            }
        }
'''),
 ('src/float/invsqrt.rs', '''pub fn invsqrt(self) -> Self {
        if self >= Self::ZERO {
            Self::from_bits(0x5f37_5a86 - (self.without_sign().to_bits() >> 1))
        } else {
            Self::NAN
        }
''', '''pub fn invsqrt(self) -> Self {
        if self < Self::ZERO || self.is_nan() {
            Self::NAN
        } else {
            let half = (self.to_bits() & 0x7fff_ffff) / 2;
            Self::from_bits(0x5f37_5a86 - half)
        }
'''),
 ('src/float/hypot.rs', '''pub fn hypot(self, rhs: Self) -> Self {
        (self * self + rhs * rhs).sqrt()
''', '''pub fn hypot(self, rhs: Self) -> Self {
        let squares = IntoIterator::into_iter([self, rhs]).map(|side| side * side);
        squares.fold(Self::ZERO, |sum, square| sum + square).sqrt()
'''),
 ('src/float/floor.rs', '''pub fn floor(self) -> Self {
        // Already an integer, infinite or NaN, and potentially outside of the `i32` range
        if self.extract_exponent_value() >= MANTISSA_BITS as i32 {
            return self;
        }

        let mut res = (self.0 as i32) as f32;

        if self.0 < res {
            res -= 1.0;
        }

        Self(res)
''', '''pub fn floor(self) -> Self {
        let toward_zero = self.trunc();
        if toward_zero <= self || self.is_nan() {
            toward_zero
        } else {
            toward_zero - Self::ONE
        }
'''),
 ('src/float/floor.rs', '''use super::{F32, MANTISSA_BITS};''', '''use super::F32;'''),
 ('src/float/ceil.rs', '''pub fn ceil(self) -> Self {
        -(-self).floor()
''', '''pub fn ceil(self) -> Self {
        let toward_zero = self.trunc();
        if toward_zero < self {
            toward_zero + Self::ONE
        } else {
            toward_zero
        }
'''),
 ('src/float/trunc.rs', '''pub fn trunc(self) -> Self {
        let x_bits = self.to_bits();
        let exponent = self.extract_exponent_value();

        // exponent is negative, there is no whole number, just return zero
        if exponent < 0 {
            return F32::ZERO.copysign(self);
        }

        // all mantissa bits are whole number bits (or the value is infinite or NaN),
        // this also keeps the shifts below in range
        if exponent >= MANTISSA_BITS as i32 {
            return self;
        }

        let exponent_clamped = i32::max(exponent, 0) as u32;

        // find the part of the fraction that would be left over
        let fractional_part = x_bits.overflowing_shl(exponent_clamped).0 & MANTISSA_MASK;

        // if there isn't a fraction we can just return the whole thing.
        if fractional_part == 0_u32 {
            return self;
        }

        let fractional_mask = fractional_part.overflowing_shr(exponent_clamped).0;

        Self::from_bits(x_bits & !fractional_mask)
''', '''pub fn trunc(self) -> Self {
        let exponent = self.extract_exponent_value();
        match exponent {
            _ if exponent < 0 => Self(0.0).copysign(self),
            0..=22 => Self::from_bits(self.to_bits() & !(MANTISSA_MASK >> exponent)),
            _ => self,
        }
'''),
 ('src/float/trunc.rs', '''use super::{F32, MANTISSA_BITS, MANTISSA_MASK};''', '''use super::{F32, MANTISSA_MASK};'''),
 ('src/float/fract.rs', '''pub fn fract(self) -> Self {
        let x_bits = self.to_bits();
        let exponent = self.extract_exponent_value();

        // we know it is *only* fraction
        if exponent < 0 {
            return self;
        }

        if self.is_nan() {
            return self;
        }

        // all mantissa bits are whole number bits, there is no fraction. Shifting by
        // such an exponent would wrap around.
        if exponent >= MANTISSA_BITS as i32 {
            return Self(0.0).copysign(self);
        }

        // find the part of the fraction that would be left over
        let fractional_part = x_bits.overflowing_shl(exponent as u32).0 & MANTISSA_MASK;

        // if there isn't a fraction we can just return 0
        if fractional_part == 0 {
            // TODO: most people don't actually care about -0.0,
            // so would it be better to just not copysign?
            return Self(0.0).copysign(self);
        }

        // Note: alternatively this could use -1.0, but it's assumed subtraction would be more costly
        // example: 'let new_exponent_bits = 127_u32.overflowing_shl(23_u32).0)) - 1.0'
        let exponent_shift: u32 = (fractional_part.leading_zeros() - (32 - MANTISSA_BITS)) + 1;

        let fractional_normalized: u32 =
            fractional_part.overflowing_shl(exponent_shift).0 & MANTISSA_MASK;

        let new_exponent_bits = (EXPONENT_BIAS - (exponent_shift))
            .overflowing_shl(MANTISSA_BITS)
            .0;

        Self::from_bits(fractional_normalized | new_exponent_bits).copysign(self)
''', '''pub fn fract(self) -> Self {
        if self.is_nan() {
            return self;
        }
        let whole = self.trunc();
        let rest = if whole == self { Self::ZERO } else { self - whole };
        rest.copysign(self)
'''),
 ('src/float/fract.rs', '''use super::{EXPONENT_BIAS, MANTISSA_BITS, MANTISSA_MASK};''', ''''''),
 ('src/float/round.rs', '''pub fn round(self) -> Self {
        let trunc = self.trunc();

        // Note: the subtraction is exact, adding `0.5` to `self` would not be
        if (self - trunc).abs() >= Self(0.5) {
            trunc + Self(1.0).copysign(self)
        } else {
            trunc
        }
''', '''pub fn round(self) -> Self {
        let trunc = self.trunc();
        let away = (self - trunc).abs() >= Self(0.5);
        let step = F32::from(u8::from(away));
        if away {
            trunc + step.copysign(self)
        } else {
            trunc
        }
'''),
 ('src/float/cos.rs', '''pub fn cos(self) -> Self {
        let mut x = self;
        x *= FRAC_1_PI / 2.0;
        x -= 0.25 + (x + 0.25).floor().0;
        x *= 16.0 * (x.abs() - 0.5);
        x += 0.225 * x * (x.abs() - 1.0);
        x
''', '''pub fn cos(self) -> Self {
        let turns = self * (FRAC_1_PI / 2.0);
        let shifted = turns - (turns + 0.25).floor() - 0.25;
        let p = 16.0 * shifted * (shifted.abs() - 0.5);
        p * (1.0 + 0.225 * (p.abs() - 1.0))
'''),
 ('src/float/atan.rs', '''pub fn atan_norm(self) -> Self {
        const SIGN_MASK: u32 = 0x8000_0000;
        const B: f32 = 0.596_227;

        // Extract the sign bit
        let ux_s = SIGN_MASK & self.to_bits();

        // Calculate the arctangent in the first quadrant
        let bx_a = (B * self).abs();
        let n = bx_a + self * self;
        let atan_1q = if n.is_infinite() {
            // The quotient below approaches `1.0`, but would be `inf / inf`
            Self::ONE
        } else {
            n / (1.0 + bx_a + n)
        };

        // Restore the sign bit and convert to float
        Self::from_bits(ux_s | atan_1q.to_bits())
''', '''pub fn atan_norm(self) -> Self {
        const B: f32 = 0.596_227;
        let x = self.abs();
        let n = x * (B + x);
        let magnitude = if n == Self::INFINITY { Self::ONE } else { n / (1.0 + (B * x + n)) };
        magnitude.copysign(self)
'''),
 ('src/float/atan2.rs', '''pub fn atan2(self, rhs: Self) -> Self {
        let n = self.atan2_norm(rhs);
        PI / 2.0 * if n > 2.0 { n - 4.0 } else { n }
''', '''pub fn atan2(self, rhs: Self) -> Self {
        let angle = self.atan2_norm(rhs) * (PI / 2.0);
        if angle > PI {
            angle - 2.0 * PI
        } else {
            angle
        }
'''),
 ('src/float/ln.rs', '''pub fn ln(self) -> Self {
        // not defined for negative numbers
        if self.is_nan() || self < Self::ZERO {
            return Self::NAN;
        }

        if self.is_infinite() {
            return self;
        }

        // x may essentially be 1.0 but, as clippy notes, these kinds of
        // floating point comparisons can fail when the bit pattern is not the sames
        if (self - Self::ONE).abs() < f32::EPSILON {
            return Self::ZERO;
        }

        // according to the SO post ln(x) = ln((2^n)*y)= ln(2^n) + ln(y) = ln(2) * n + ln(y)
        // get exponent value, which is negative for values of x below 1.0
        let base2_exponent = self.extract_exponent_value();

        // normalizing between 1.0 and 2.0
        let x_working = self.without_sign().set_exponent(0);

        // approximate polynomial generated from maple in the post using Remez Algorithm:
        // https://en.wikipedia.org/wiki/Remez_algorithm
        let ln_1to2_polynomial = -1.741_793_9
            + (2.821_202_6
                + (-1.469_956_8 + (0.447_179_55 - 0.056_570_851 * x_working) * x_working)
                    * x_working)
                * x_working;

        // ln(2) * n + ln(y)
        (base2_exponent as f32) * LN_2 + ln_1to2_polynomial
''', '''pub fn ln(self) -> Self {
        if !(self >= Self::ZERO) {
            return Self::NAN;
        }
        if self == Self::INFINITY {
            return Self::INFINITY;
        }
        let from_one = self - Self::ONE;
        if from_one.abs() < f32::EPSILON {
            return Self::ZERO;
        }
        let bits = self.to_bits() & 0x7fff_ffff;
        let exponent = (bits >> 23) as i32 - 127;
        let m = Self::from_bits(bits & 0x007f_ffff | 0x3f80_0000);
        let cubic = 0.447_179_55 - 0.056_570_851 * m;
        let square = -1.469_956_8 + cubic * m;
        let line = 2.821_202_6 + square * m;
        exponent as f32 * LN_2 + (line * m - 1.741_793_9)
'''),
 ('src/float/exp.rs', '''pub(crate) fn exp_smallx(self, iter: u32) -> Self {
        let mut total = 1.0;

        for i in (1..=iter).rev() {
            total = 1.0 + ((self.0 / (i as f32)) * total);
        }

        Self(total)
''', '''pub(crate) fn exp_smallx(self, iter: u32) -> Self {
        match iter {
            4 => 1.0 + self * (1.0 + self / 2.0 * (1.0 + self / 3.0 * (1.0 + self / 4.0))),
            _ => {
                let mut total = Self::ONE;
                let mut i = iter;
                while i >= 1 {
                    total = 1.0 + self / (i as f32) * total;
                    i -= 1;
                }
                total
            }
        }
'''),
 ('src/float/cosh.rs', '''pub fn cosh(self) -> Self {
        // one more term than `exp` uses, which is not accurate enough for the errors above
        let exp_x = self.exp_ln2_approx(5);
        let exp_neg_x = (-self).exp_ln2_approx(5);
        (exp_x + exp_neg_x) / 2.0
''', '''pub fn cosh(self) -> Self {
        let half = F32(0.5);
        half * (-self).exp_ln2_approx(5) + half * self.exp_ln2_approx(5)
'''),
 ('src/float/log10.rs', '''pub fn log10(self) -> Self {
        self.ln() * LOG10_E
''', '''pub fn log10(self) -> Self {
        const SCALE: f32 = LOG10_E;
        SCALE * self.ln()
'''),
 ('src/float/rem_euclid.rs', '''pub fn rem_euclid(self, rhs: Self) -> Self {
        let r = self % rhs;

        if r >= Self::ZERO {
            r
        } else {
            r + rhs.abs()
        }
''', '''pub fn rem_euclid(self, rhs: Self) -> Self {
        let r = self % rhs;
        match r < Self::ZERO {
            true if rhs > Self::ZERO => r + rhs,
            true => r - rhs,
            false => r,
        }
'''),
 ('src/float/div_euclid.rs', '''pub fn div_euclid(self, rhs: Self) -> Self {
        let q = (self / rhs).trunc();

        if self % rhs >= Self::ZERO {
            q
        } else if rhs > Self::ZERO {
            q - Self::ONE
        } else {
            q + Self::ONE
        }
''', '''pub fn div_euclid(self, rhs: Self) -> Self {
        let q = (self / rhs).trunc();
        let r = self % rhs;
        if r < Self::ZERO {
            return q - Self::ONE.copysign(rhs);
        }
        q
'''),
 ('src/float/signum.rs', '''pub fn signum(self) -> Self {
        if self.is_nan() {
            Self::NAN
        } else {
            F32(1.0).copysign(self)
        }
''', '''pub fn signum(self) -> Self {
        if self.is_nan() {
            return self;
        }
        Self::from_bits(Self::ONE.to_bits() | (self.to_bits() >> 31) << 31)
'''),
 ('src/float/powf.rs', '''pub fn powf(self, n: Self) -> Self {
        // using x^n = exp(ln(x^n)) = exp(n*ln(x))
        if self >= Self::ZERO {
            (n * self.ln()).exp()
        } else if !n.is_integer() {
            Self::NAN
        } else if n.is_even() {
            // if n is even, then we know that the result will have no sign, so we can remove it
            (n * self.without_sign().ln()).exp()
        } else {
            // if n isn't even, we need to multiply by -1.0 at the end.
            -(n * self.without_sign().ln()).exp()
        }
''', '''pub fn powf(self, n: Self) -> Self {
        let negative = !(self >= Self::ZERO);
        if negative && !n.is_integer() {
            return Self::NAN;
        }
        let magnitude = if negative { -self } else { self };
        let power = (n * magnitude.ln()).exp();
        if negative && !n.is_even() {
            -power
        } else {
            power
        }
'''),
 ('src/float/sin_cos.rs', '''pub fn sin_cos(self) -> (Self, Self) {
        (self.sin(), self.cos())
''', '''pub fn sin_cos(self) -> (Self, Self) {
        let cosine = self.cos();
        let sine = self.sin();
        (sine, cosine)
'''),
 ('src/float/mul_add.rs', '''pub fn mul_add(self, a: Self, b: Self) -> Self {
        self * a + b
''', '''pub fn mul_add(self, a: Self, b: Self) -> Self {
        let product = a * self;
        b + product
'''),
 ('src/quaternion.rs', '''        let qwsq = qw * qw;
        let qxsq = qx * qx;
        let qysq = qy * qy;
        let qzsq = qz * qz;

        let x = (qwsq + qxsq - qysq - qzsq) * v.x.into()
            + (2. * (qx * qy - qw * qz)) * v.y.into()
            + (2. * (qx * qz + qw * qy)) * v.z.into();

        let y = (2. * (qx * qy + qw * qz)) * v.x.into()
            + (qwsq - qxsq + qysq - qzsq) * v.y.into()
            + (2. * (qy * qz - qw * qx)) * v.z.into();

        let z = (2. * (qx * qz - qw * qy)) * v.x.into()
            + (2. * (qy * qz + qw * qx)) * v.y.into()
            + (qwsq - qxsq - qysq + qzsq) * v.z.into();

''', '''        let _ = (qw, qx, qy, qz);
        let Quaternion(_, x, y, z) = self * Quaternion::from(v) * self.conj();
'''),
 ('src/quaternion.rs', '''        Self(
            self.0 * other.0 - self.1 * other.1 - self.2 * other.2 - self.3 * other.3,
            self.0 * other.1 + self.1 * other.0 + self.2 * other.3 - self.3 * other.2,
            self.0 * other.2 - self.1 * other.3 + self.2 * other.0 + self.3 * other.1,
            self.0 * other.3 + self.1 * other.2 - self.2 * other.1 + self.3 * other.0,
        )
''', '''        let Self(a, b, c, d) = self;
        let Self(e, f, g, h) = other;
        let w = a * e - (b * f + c * g + d * h);
        let x = (a * f + b * e) + (c * h - d * g);
        let y = (a * g + c * e) + (d * f - b * h);
        let z = (a * h + d * e) + (b * g - c * f);
        Self(w, x, y, z)
'''),
 ('src/quaternion.rs', '''        self.conj() * F32(norm).inv().0
''', '''        let k = F32(norm).inv();
        F32::from(k).0 * self.conj()
'''),
 ('src/quaternion.rs', '''        } * half_theta.sin().0;

        Self(half_theta.cos().0, v.x, v.y, v.z)
''', '''        };
        let (s, c) = half_theta.sin_cos();
        Self(c.0, s.0 * v.x, s.0 * v.y, s.0 * v.z)
'''),
 ('src/quaternion.rs', '''        assert_ne!(norm, 0.0, "quaternion norm is zero");
''', '''        if norm == 0.0 {
            panic!("quaternion norm is zero");
        }
'''),
 ('src/statistics/trim.rs', '''        while let Some(n) = self.input.next() {
            let distance = (f32::from(n) - self.mean).abs();

            // TODO(tarcieri): better method for finding outliers? (e.g. MAD, IQD)
            if (distance / self.stddev) < self.threshold {
                return Some(n);
            }
        }

        None
''', '''        for n in self.input.by_ref() {
            let distance = (self.mean - f32::from(n)).abs();
            let near = distance / self.stddev < self.threshold;
            if !near {
                continue;
            }
            return Some(n);
        }
        None
'''),
 ('src/statistics/trim.rs', '''        let len = input.len() as f32;
''', '''        fn spread(squares: f32, count: usize) -> f32 {
            (squares / (count as f32 - 1.0)).sqrt()
        }
        let len = input.len();
'''),
 ('src/statistics/trim.rs', '''        let variance = sum / (len - 1.0);
        let stddev = variance.sqrt();
''', '''        let stddev = spread(sum, len);
'''),
 ('src/statistics/mean.rs', '''        // wide enough for iterators of any length
        let mut num_items = 0u64;
        let mut sum = 0.0;

        for item in self {
            num_items += 1;
            sum += item;
        }

        sum / (num_items as f32)
''', '''        let (sum, count) = self
            .enumerate()
            .fold((0.0, 0), |(sum, _), (i, item)| (sum + item, i + 1));
        sum / count as f32
'''),
 ('src/statistics/variance.rs', '''        let mut sum = 0.0;

        for item in self {
            let n = (*item).into() - mean;
            sum += n * n;
        }

        sum / (self.len() as f32 - 1.0)
''', '''        let mut rest = self;
        let mut sum = 0.0;
        while let Some((first, tail)) = rest.split_first() {
            let n: f32 = (*first).into() - mean;
            sum += n * n;
            rest = tail;
        }
        let degrees = self.len() as f32 - 1.0;
        sum / degrees
'''),
 ('src/vector.rs', '''        self.iter()
            .map(|n| {
                let n = n.into();
                n * n
            })
            .sum::<f32>()
            .sqrt()
''', '''        let mut sum = 0.0f32;
        let mut axis = 0;
        while let Some(n) = self.get(axis) {
            let n: f32 = n.into();
            sum += n * n;
            axis += 1;
        }
        sum.sqrt()
'''),
 ('src/vector/vector3d.rs', '''        (self.x * rhs.x) + (self.y * rhs.y) + (self.z * rhs.z)
''', '''        let a = self.to_array();
        let b = rhs.to_array();
        let mut products = a.iter().zip(b.iter()).map(|(&p, &q)| p * q);
        let first = products.next().unwrap_or_default();
        products.fold(first, |sum, p| sum + p)
'''),
 ('src/vector/vector3d.rs', '''        Self {
            x: vector[0],
            y: vector[1],
            z: vector[2],
        }
''', '''        let [x, y, z] = vector;
        Self { x, y, z }
'''),
 ('src/vector/vector3d.rs', '''        let x = iter.next().expect("no x-axis component in slice");
        let y = iter.next().expect("no y-axis component in slice");
        let z = iter.next().expect("no z-axis component in slice");

        assert!(
            iter.next().is_none(),
            "too many items for 3-dimensional vector"
        );

        Self { x, y, z }
''', '''        match (iter.next(), iter.next(), iter.next(), iter.next()) {
            (Some(x), Some(y), Some(z), None) => Self { x, y, z },
            (_, _, _, Some(_)) => panic!("too many items for 3-dimensional vector"),
            _ => panic!("component missing"),
        }
'''),
 ('src/vector/vector2d.rs', '''        (self.x * rhs.x) + (self.y * rhs.y)
''', '''        let product = Self {
            x: self.x * rhs.x,
            y: self.y * rhs.y,
        };
        product.x + product.y
'''),
 ('src/vector/vector3d.rs', '''            0 => &self.x,
            1 => &self.y,
            2 => &self.z,
            _ => panic!("index out of range"),
''', '''            i if i >= 3 => panic!("index out of range"),
            2 => &self.z,
            1 => &self.y,
            _ => &self.x,
'''),
 ('src/vector/vector2d.rs', '''            0 => &self.x,
            1 => &self.y,
            _ => panic!("index out of range"),
''', '''            0 => &self.x,
            1 => &self.y,
            _ => unreachable_index(i),
'''),
 ('src/vector/vector2d.rs', '''use super::''', '''#[cold]
fn unreachable_index(i: usize) -> ! {
    panic!("index {} out of range", i)
}

use super::'''),
 ('src/f32ext.rs', '''        (F32(self).sin().0, F32(self).cos().0)
''', '''        let (sine, cosine) = F32(self).sin_cos();
        (sine.into(), cosine.into())
'''),
]


V['g'] = [
 ('src/float/trunc.rs', '''        let exponent_clamped = i32::max(exponent, 0) as u32;

        // find the part of the fraction that would be left over
        let fractional_part = x_bits.overflowing_shl(exponent_clamped).0 & MANTISSA_MASK;

        // if there isn't a fraction we can just return the whole thing.
        if fractional_part == 0_u32 {
            return self;
        }

        let fractional_mask = fractional_part.overflowing_shr(exponent_clamped).0;

        Self::from_bits(x_bits & !fractional_mask)''', '''        Self::from_bits(x_bits & !(MANTISSA_MASK >> exponent))'''),
 ('src/float/floor.rs', '''        let mut res = (self.0 as i32) as f32;

        if self.0 < res {
            res -= 1.0;
        }

        Self(res)''', '''        let n = self.0 as i32;
        let above = self.0 < n as f32;

        Self((n - i32::from(above)) as f32)'''),
 ('src/float/sqrt.rs', '''        if self >= Self::ZERO {
            Self::from_bits((self.without_sign().to_bits() + 0x3f80_0000) >> 1)
        } else {
            Self::NAN
        }''', '''        if !(self >= Self::ZERO) {
            return Self::NAN;
        }

        // half of the exponent, half of the bias
        Self::from_bits((self.without_sign().to_bits() >> 1) + 0x1fc0_0000)'''),
 ('src/float/invsqrt.rs', '''        if self >= Self::ZERO {
            Self::from_bits(0x5f37_5a86 - (self.without_sign().to_bits() >> 1))
        } else {
            Self::NAN
        }''', '''        match self.partial_cmp(&Self::ZERO) {
            None | Some(core::cmp::Ordering::Less) => Self::NAN,
            _ => {
                let half = (self.to_bits() & 0x7fff_ffff) / 2;
                Self::from_bits(0x5f37_5a86 - half)
            }
        }'''),
 ('src/float/powi.rs', '''        loop {
            if (abs_n & 1) == 1 {
                result *= base;
            }

            abs_n >>= 1;

            if abs_n == 0 {
                return Self(result);
            }

            base *= base;
        }''', '''        while abs_n > 1 {
            if abs_n % 2 != 0 {
                result *= base;
            }

            abs_n /= 2;
            base = base * base;
        }

        result * base'''),
 ('src/float/exp.rs', '''        let mut total = 1.0;

        for i in (1..=iter).rev() {
            total = 1.0 + ((self.0 / (i as f32)) * total);
        }

        Self(total)''', '''        (1..=iter)
            .rev()
            .fold(Self::ONE, |total, i| self / i as f32 * total + 1.0)'''),
 ('src/float/exp.rs', '''        if (self - Self::ONE).abs() < f32::EPSILON {
            return consts::E.into();
        }

        if (self - (-Self::ONE)).abs() < f32::EPSILON {
            return Self::ONE / consts::E;
        }
''', '''        if (self.abs() - Self::ONE).abs() < f32::EPSILON {
            return if self.is_sign_negative() {
                Self::ONE / consts::E
            } else {
                Self(consts::E)
            };
        }
'''),
 ('src/float/ln.rs', '''        if self.is_nan() || self < Self::ZERO {
            return Self::NAN;
        }

        if self.is_infinite() {
            return self;
        }
''', '''        if self.is_infinite() && self.is_sign_positive() {
            return Self::INFINITY;
        } else if !(self >= Self::ZERO) {
            return Self::NAN;
        }
'''),
 ('src/float/powf.rs', '''        if self >= Self::ZERO {
            (n * self.ln()).exp()
        } else if !n.is_integer() {
            Self::NAN
        } else if n.is_even() {
            // if n is even, then we know that the result will have no sign, so we can remove it
            (n * self.without_sign().ln()).exp()
        } else {
            // if n isn't even, we need to multiply by -1.0 at the end.
            -(n * self.without_sign().ln()).exp()
        }''', '''        let negative = !(self >= Self::ZERO);
        if negative && !n.is_integer() {
            return Self::NAN;
        }

        let power = (n * self.without_sign().ln()).exp();
        if negative && !n.is_even() {
            -power
        } else {
            power
        }'''),
 ('src/float/cos.rs', '''        x *= FRAC_1_PI / 2.0;
        x -= 0.25 + (x + 0.25).floor().0;
        x *= 16.0 * (x.abs() - 0.5);
        x += 0.225 * x * (x.abs() - 1.0);
        x''', '''        x = (FRAC_1_PI / 2.0) * x;
        x = x - ((x + 0.25).floor() + 0.25);
        x = x * ((x.abs() - 0.5) * 16.0);
        x + (0.225 * x) * (x.abs() - 1.0)'''),
 ('src/float/atan2.rs', '''        let n = self.atan2_norm(rhs);
        PI / 2.0 * if n > 2.0 { n - 4.0 } else { n }''', '''        let mut n = self.atan2_norm(rhs);
        if n > Self(2.0) {
            n -= 4.0;
        }
        n * (PI / 2.0)'''),
 ('src/float/atan2.rs', '''        let q = ((!ux_s & uy_s) >> 29 | ux_s >> 30) as f32;''', '''        let q = match (ux_s != 0, uy_s != 0) {
            (true, _) => 2.0,
            (false, true) => 4.0,
            (false, false) => 0.0,
        };'''),
 ('src/float/atan.rs', '''        // Restore the sign bit and convert to float
        Self::from_bits(ux_s | atan_1q.to_bits())''', '''        if ux_s == 0 {
            Self::from_bits(atan_1q.to_bits())
        } else {
            Self::from_bits(atan_1q.to_bits() | SIGN_MASK)
        }'''),
 ('src/float/acos.rs', '''        if self > 0.0 {
            ((Self::ONE - self * self).sqrt() / self).atan()
        } else if self == 0.0 {
            Self(PI / 2.0)
        } else {
            ((Self::ONE - self * self).sqrt() / self).atan() + PI
        }''', '''        if self == Self::ZERO {
            return Self(PI / 2.0);
        }

        let angle = ((Self::ONE - self * self).sqrt() / self).atan();
        if self > Self::ZERO {
            angle
        } else {
            angle + PI
        }'''),
 ('src/float/recip.rs', '''        let sx = if x < 0.0 { F32(-1.0) } else { F32(1.0) };
        x *= sx;
''', '''        let mut sx = F32(1.0);
        if x < 0.0 {
            sx = F32(-1.0);
            x = -x;
        }
'''),
 ('src/float/div_euclid.rs', '''        let q = (self / rhs).trunc();

        if self % rhs >= Self::ZERO {
            q
        } else if rhs > Self::ZERO {
            q - Self::ONE
        } else {
            q + Self::ONE
        }''', '''        let towards_zero = (self / rhs).trunc();
        if self % rhs >= Self::ZERO {
            return towards_zero;
        }

        let step = if rhs > Self::ZERO { -1.0 } else { 1.0 };
        towards_zero + step'''),
 ('src/float/round.rs', '''        if (self - trunc).abs() >= Self(0.5) {
            trunc + Self(1.0).copysign(self)
        } else {
            trunc
        }''', '''        let rest = self - trunc;
        if rest >= Self(0.5) {
            trunc + Self::ONE
        } else if rest <= Self(-0.5) {
            trunc - Self::ONE
        } else {
            trunc
        }'''),
 ('src/float/signum.rs', '''        if self.is_nan() {
            Self::NAN
        } else {
            F32(1.0).copysign(self)
        }''', '''        if self.is_nan() {
            return Self::NAN;
        }

        if self.is_sign_negative() {
            -Self::ONE
        } else {
            Self::ONE
        }'''),
 ('src/statistics/mean.rs', '''        // wide enough for iterators of any length
        let mut num_items = 0u64;
        let mut sum = 0.0;

        for item in self {
            num_items += 1;
            sum += item;
        }

        sum / (num_items as f32)''', '''        let mut sum = 0.0;
        let mut seen = 0u64;
        let mut items = self;

        loop {
            match items.next() {
                Some(item) => sum += item,
                None => return sum / seen as f32,
            }
            seen += 1;
        }'''),
 ('src/statistics/variance.rs', '''        let mean = self.iter().map(|n| (*n).into()).mean();
        let mut sum = 0.0;

        for item in self {
            let n = (*item).into() - mean;
            sum += n * n;
        }

        sum / (self.len() as f32 - 1.0)''', '''        let values = self.iter().copied().map(Into::<f32>::into);
        let mean = values.clone().mean();
        let squares = values.fold(0.0, |sum, n| sum + (n - mean) * (n - mean));

        squares / (self.len() as f32 - 1.0)'''),
 ('src/statistics/trim.rs', '''        while let Some(n) = self.input.next() {
            let distance = (f32::from(n) - self.mean).abs();

            // TODO(tarcieri): better method for finding outliers? (e.g. MAD, IQD)
            if (distance / self.stddev) < self.threshold {
                return Some(n);
            }
        }

        None''', '''        let (mean, stddev, threshold) = (self.mean, self.stddev, self.threshold);
        self.input
            .find(|n| (f32::from(*n) - mean).abs() / stddev < threshold)'''),
 ('src/vector.rs', '''        let differences = self
            .iter()
            .zip(rhs.iter())
            .map(|(a, b)| a.into() - b.into());

        differences.map(|n| n * n).sum::<f32>().sqrt()''', '''        let mut others = rhs.iter();
        let total = self.iter().fold(-0.0_f32, |sum, a| match others.next() {
            Some(b) => {
                let difference: f32 = a.into() - b.into();
                sum + difference * difference
            }
            None => sum,
        });

        total.sqrt()'''),
 ('src/vector/vector2d.rs', '''        let mut iter = into_iter.into_iter();

        let x = iter.next().expect("no x-axis component in slice");
        let y = iter.next().expect("no y-axis component in slice");

        assert!(
            iter.next().is_none(),
            "too many items for 2-dimensional vector"
        );

        Self { x, y }''', '''        let mut iter = into_iter.into_iter();

        match (iter.next(), iter.next(), iter.next()) {
            (Some(x), Some(y), None) => Self { x, y },
            (None, ..) => panic!("no x-axis component in slice"),
            (_, None, _) => panic!("no y-axis component in slice"),
            _ => panic!("too many items for 2-dimensional vector"),
        }'''),
 ('src/vector/vector3d.rs', '''        iter.fold(Vector3d::default(), |prev, current| prev + current)''', '''        let mut total = Self::default();
        iter.for_each(|v| total += v);
        total'''),
 ('src/quaternion.rs', '''        Self(
            self.0 * other.0 - self.1 * other.1 - self.2 * other.2 - self.3 * other.3,
            self.0 * other.1 + self.1 * other.0 + self.2 * other.3 - self.3 * other.2,
            self.0 * other.2 - self.1 * other.3 + self.2 * other.0 + self.3 * other.1,
            self.0 * other.3 + self.1 * other.2 - self.2 * other.1 + self.3 * other.0,
        )''', '''        let Self(a, b, c, d) = self;
        let Self(w, x, y, z) = other;
        let rows = [[w, -x, -y, -z], [x, w, z, -y], [y, -z, w, x], [z, y, -x, w]];
        let entry = |r: [f32; 4]| a * r[0] + b * r[1] + c * r[2] + d * r[3];
        Self(entry(rows[0]), entry(rows[1]), entry(rows[2]), entry(rows[3]))'''),
 ('src/quaternion.rs', '''        let norm = self.norm();
        assert_ne!(norm, 0.0, "quaternion norm is zero");
        let n = F32(norm).invsqrt();

        self.scale(n)''', '''        match self.norm() {
            norm if norm == 0.0 => panic!("quaternion norm is zero"),
            norm => self.scale(F32(norm).invsqrt()),
        }'''),
 ('src/quaternion.rs', '''        let x = (qwsq + qxsq - qysq - qzsq) * v.x.into()
            + (2. * (qx * qy - qw * qz)) * v.y.into()
            + (2. * (qx * qz + qw * qy)) * v.z.into();
''', '''        let (vx, vy, vz): (f32, f32, f32) = (v.x.into(), v.y.into(), v.z.into());
        let x = vx * (qwsq + qxsq - qysq - qzsq)
            + vy * (2. * (qx * qy - qw * qz))
            + vz * (2. * (qw * qy + qx * qz));
'''),
]


def main():
    v, d = sys.argv[1:3]
    for f, old, new in V[v]:
        p = '%s/%s' % (d, f)
        s = open(p).read()
        if s.count(old) < 1:
            sys.exit('%s: not found: %s' % (f, old[:60]))
        open(p, 'w').write(s.replace(old, new, 1))


main()
