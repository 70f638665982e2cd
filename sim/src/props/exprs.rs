//! Arithmetic expressions: a generator, and an independent evaluator (recursive
//! descent over the text, where the code under test uses a shunting yard).
use crate::rng::Rng;

/// functions whose value is not in doubt, with their number of arguments (0: any)
const FUNCS: [(&str, usize); 41] = [
    ("abs", 1),
    ("fabs", 1),
    ("floor", 1),
    ("ceil", 1),
    ("round", 1),
    ("trunc", 1),
    ("sqrt", 1),
    ("sin", 1),
    ("cos", 1),
    ("tan", 1),
    ("asin", 1),
    ("acos", 1),
    ("atan", 1),
    ("sinh", 1),
    ("cosh", 1),
    ("tanh", 1),
    ("exp", 1),
    ("exp2", 1),
    ("log", 1),
    ("log2", 1),
    ("log10", 1),
    ("cbrt", 1),
    ("acosh", 1),
    ("asinh", 1),
    ("atanh", 1),
    ("expm1", 1),
    ("log1p", 1),
    ("fdim", 2),
    ("fmod", 2),
    ("hypot", 2),
    ("pow", 2),
    ("ldexp", 2),
    ("fma", 3),
    ("fmax", 2),
    ("fmin", 2),
    ("atan2", 2),
    ("copysign", 2),
    ("if", 3),
    ("max", 0),
    ("min", 0),
    ("avg", 0),
];
const CONSTS: [(&str, f64); 20] = [
    ("pi", std::f64::consts::PI),
    ("e", std::f64::consts::E),
    ("M_E", std::f64::consts::E),
    ("M_LOG2E", std::f64::consts::LOG2_E),
    ("M_LOG10E", std::f64::consts::LOG10_E),
    ("M_LN2", std::f64::consts::LN_2),
    ("M_LN10", std::f64::consts::LN_10),
    ("M_PI", std::f64::consts::PI),
    ("M_PI_2", std::f64::consts::FRAC_PI_2),
    ("M_PI_4", std::f64::consts::FRAC_PI_4),
    ("M_1_PI", std::f64::consts::FRAC_1_PI),
    ("M_2_PI", std::f64::consts::FRAC_2_PI),
    ("M_2_SQRTPI", std::f64::consts::FRAC_2_SQRT_PI),
    ("M_SQRT2", std::f64::consts::SQRT_2),
    ("M_SQRT1_2", std::f64::consts::FRAC_1_SQRT_2),
    ("M_INF", f64::INFINITY),
    ("M_NEG_INF", f64::NEG_INFINITY),
    ("M_MAX", f64::MAX),
    ("M_MIN", f64::MIN),
    ("M_MIN_POS", f64::MIN_POSITIVE),
];
/// the number formats, and a precision where they take one
pub const FORMATS: [&str; 16] = ["plain", "short", "float", "power2", "power10", "p2", "p10", "plain.0", "plain.3", "short.2", "short.6", "float.1", "float.5", "PLAIN", "Float.9", "plain.12"];

/// is this what a format shows of that value?
pub fn shows(text: &str, v: f64, fmt: &str) -> bool {
    let f = fmt.to_ascii_lowercase();
    let (kind, prec) = match f.split_once('.') {
        Some((a, b)) => (a.to_string(), b.parse::<i32>().ok()),
        None => (f.clone(), None),
    };
    if kind == "power2" || kind == "p2" || kind == "power10" || kind == "p10" {
        let base: f64 = if kind.ends_with("10") { 1000.0 } else { 1024.0 };
        let letters = if kind.ends_with("10") { "kmgtpezy" } else { "KMGTPEZY" };
        let (num, x) = match text.chars().last().and_then(|c| letters.find(c)) {
            Some(i) => (&text[..text.len() - 1], base.powi(i as i32 + 1)),
            None => (text, 1.0),
        };
        let Ok(n) = num.parse::<f64>() else { return false };
        let n = n * x;
        return n == v || (n.is_nan() && v.is_nan()) || (n - v).abs() <= if x > 1.0 { 0.1 * v.abs() } else { 0.5 };
    }
    let Some(p) = prec else { return same(text, v) };
    let Ok(n) = text.parse::<f64>() else { return false };
    // half a unit of the last digit; either way where a format may choose
    let fixed = 0.501 * 10f64.powi(-p);
    let rel = fixed * v.abs();
    let tol = match kind.as_str() {
        "plain" => fixed,
        "float" => rel,
        _ => rel.max(if v.abs() < 1000.0 { fixed } else { 0.0 }),
    };
    // rounding the largest numbers up leaves what can be read back
    let up = v.abs() > 1e307 && v.is_finite() && n == f64::INFINITY.copysign(v);
    up || n == v || (n.is_nan() && v.is_nan()) || (n - v).abs() <= tol + v.abs() * 1e-14
}

pub const BAD: [&str; 12] = ["2*", "foo(", "", "min(", ")", "1,2", "(1", "foo(1)", "*3", "abs(1,2)", "1 2", "if(1,2)"];

fn number(r: &mut Rng) -> String {
    match r.below(6) {
        0 => format!("{}.5", r.below(100)),
        2 => r.below(100_000).to_string(),
        _ => r.below(10).to_string(),
    }
}
/// an expression that binds at least as tightly as `prec`
fn gen(r: &mut Rng, depth: usize, prec: u8, vars: &[String]) -> String {
    let leaf = |r: &mut Rng| if !vars.is_empty() && r.pct(60) { r.pick(vars).clone() } else if r.pct(3) { r.pick(&CONSTS).0.to_string() } else { number(r) };
    if depth == 0 {
        return leaf(r);
    }
    let d = depth - 1;
    let (p, s) = match r.below(14) {
        0 => {
            let op = *r.pick(&["<", ">", "<=", ">=", "==", "!="]);
            (1, format!("{}{op}{}", gen(r, d, 1, vars), gen(r, d, 2, vars)))
        }
        1..=3 => {
            let op = *r.pick(&["+", "-"]);
            (2, format!("{}{op}{}", gen(r, d, 2, vars), gen(r, d, 3, vars)))
        }
        4..=6 => {
            let op = *r.pick(&["*", "/", "%", "*"]);
            (3, format!("{}{op}{}", gen(r, d, 3, vars), gen(r, d, 4, vars)))
        }
        7 => (4, format!("{}{}", r.pick(&["-", "-", "+"]), gen(r, d, 4, vars))),
        8 => (5, format!("{}^{}", gen(r, d, 6, vars), gen(r, d, 5, vars))),
        9 => (6, format!("{}!", r.below(21))),
        10..=11 => {
            let (f, n) = *r.pick(&FUNCS);
            let n = if n == 0 { r.range(1, 4) } else { n };
            let a: Vec<String> = (0..n).map(|_| gen(r, d, 0, vars)).collect();
            (7, format!("{f}({})", a.join(",")))
        }
        12 => (7, format!("({})", gen(r, d, 0, vars))),
        _ => (7, leaf(r)),
    };
    if p < prec {
        format!("({s})")
    } else {
        s
    }
}
pub fn expr(r: &mut Rng, vars: &[String]) -> String {
    let d = *r.pick(&[0, 1, 1, 2, 2, 3, 4]);
    for _ in 0..5 {
        let e = gen(r, d, 0, vars);
        // without variables its value is known here
        if !vars.is_empty() || eval(&e, &|_| None).is_some() {
            return e;
        }
    }
    "1".into()
}

struct P<'a> {
    t: &'a [u8],
    at: usize,
    var: &'a dyn Fn(&str) -> Option<f64>,
}
impl P<'_> {
    fn peek(&self) -> u8 {
        self.t.get(self.at).copied().unwrap_or(0)
    }
    fn eat(&mut self, s: &str) -> bool {
        let yes = self.t[self.at..].starts_with(s.as_bytes());
        if yes {
            self.at += s.len();
        }
        yes
    }
    fn cmp(&mut self) -> Option<f64> {
        let mut v = self.sum()?;
        loop {
            let f: fn(f64, f64) -> bool = if self.eat("<=") {
                |a, b| a <= b
            } else if self.eat(">=") {
                |a, b| a >= b
            } else if self.eat("==") {
                |a, b| a == b
            } else if self.eat("!=") {
                |a, b| a != b
            } else if self.eat("<") {
                |a, b| a < b
            } else if self.eat(">") {
                |a, b| a > b
            } else {
                return Some(v);
            };
            let b = self.sum()?;
            v = if f(v, b) { 1.0 } else { 0.0 };
        }
    }
    fn sum(&mut self) -> Option<f64> {
        let mut v = self.product()?;
        loop {
            if self.eat("+") {
                v += self.product()?;
            } else if self.eat("-") {
                v -= self.product()?;
            } else {
                return Some(v);
            }
        }
    }
    fn product(&mut self) -> Option<f64> {
        let mut v = self.unary()?;
        loop {
            if self.eat("*") {
                v *= self.unary()?;
            } else if self.eat("/") {
                v /= self.unary()?;
            } else if self.eat("%") {
                v %= self.unary()?;
            } else {
                return Some(v);
            }
        }
    }
    fn unary(&mut self) -> Option<f64> {
        if self.eat("-") {
            return Some(-self.unary()?);
        }
        if self.eat("+") {
            return self.unary();
        }
        self.power()
    }
    fn power(&mut self) -> Option<f64> {
        let v = self.postfix()?;
        if self.eat("^") {
            let e = self.unary()?;
            return Some(v.powf(e));
        }
        Some(v)
    }
    fn postfix(&mut self) -> Option<f64> {
        let from = self.at;
        let v = self.atom()?;
        if self.peek() == b'!' && self.t.get(self.at + 1) != Some(&b'=') {
            self.at += 1;
            // only what is exact: small whole numbers
            if self.peek() == b'!' || !self.t[from..self.at - 1].iter().all(u8::is_ascii_digit) || v > 20.0 {
                return None;
            }
            return Some((1..=v as u64).map(|x| x as f64).product());
        }
        Some(v)
    }
    fn atom(&mut self) -> Option<f64> {
        let c = self.peek();
        if self.eat("(") {
            let v = self.cmp()?;
            return self.eat(")").then_some(v);
        }
        let from = self.at;
        if c.is_ascii_digit() {
            while self.peek().is_ascii_digit() {
                self.at += 1;
            }
            if self.peek() == b'.' {
                self.at += 1;
                if !self.peek().is_ascii_digit() {
                    return None;
                }
                while self.peek().is_ascii_digit() {
                    self.at += 1;
                }
            }
            if self.peek().is_ascii_alphanumeric() || self.peek() == b'.' {
                return None;
            }
            let t = std::str::from_utf8(&self.t[from..self.at]).ok()?;
            // only numbers every parser reads exactly
            let v: f64 = t.parse().ok()?;
            return (t.len() < 12 && (v * 2.0).fract() == 0.0).then_some(v);
        }
        if !c.is_ascii_alphabetic() {
            return None;
        }
        while self.peek().is_ascii_alphanumeric() || self.peek() == b'_' {
            self.at += 1;
        }
        let name = String::from_utf8(self.t[from..self.at].to_vec()).ok()?;
        if !self.eat("(") {
            return CONSTS.iter().find(|c| c.0 == name).map(|c| c.1).or_else(|| (self.var)(&name));
        }
        let mut a = vec![self.cmp()?];
        while self.eat(",") {
            a.push(self.cmp()?);
        }
        if !self.eat(")") {
            return None;
        }
        let n = FUNCS.iter().find(|f| f.0 == name)?.1;
        if n != 0 && n != a.len() {
            return None;
        }
        let x = a[0];
        Some(match name.as_str() {
            "abs" | "fabs" => x.abs(),
            "floor" => x.floor(),
            "ceil" => x.ceil(),
            "round" => x.round(),
            "trunc" => x.trunc(),
            "sqrt" => x.sqrt(),
            "sin" => x.sin(),
            "cos" => x.cos(),
            "tan" => x.tan(),
            "asin" => x.asin(),
            "acos" => x.acos(),
            "atan" => x.atan(),
            "sinh" => x.sinh(),
            "cosh" => x.cosh(),
            "tanh" => x.tanh(),
            "exp" => x.exp(),
            "exp2" => x.exp2(),
            "log" => x.ln(),
            "log2" => x.log2(),
            "log10" => x.log10(),
            "cbrt" => x.cbrt(),
            "acosh" => x.acosh(),
            "asinh" => x.asinh(),
            "atanh" => x.atanh(),
            "expm1" => x.exp_m1(),
            "log1p" => x.ln_1p(),
            "fdim" if x.is_nan() || a[1].is_nan() => f64::NAN,
            "fdim" if x > a[1] => x - a[1],
            "fdim" => 0.0,
            "fmod" => x % a[1],
            "hypot" => x.hypot(a[1]),
            "pow" => x.powf(a[1]),
            // only where the result is exact
            "ldexp" => {
                if a[1].fract() != 0.0 || a[1].abs() > 50.0 || !(1e-200..1e200).contains(&x.abs()) {
                    return None;
                }
                x * a[1].exp2()
            }
            "fma" => x.mul_add(a[1], a[2]),
            "fmax" => x.max(a[1]),
            "fmin" => x.min(a[1]),
            "atan2" => x.atan2(a[1]),
            "copysign" if a[1].is_nan() => return None, // which sign has it?
            "copysign" => x.copysign(a[1]),
            "if" => {
                if x != 0.0 {
                    a[1]
                } else {
                    a[2]
                }
            }
            "max" => a.iter().fold(x, |m, v| if *v > m { *v } else { m }),
            "min" => a.iter().fold(x, |m, v| if *v < m { *v } else { m }),
            "avg" => a.iter().fold(0.0, |m, v| m + v) / a.len() as f64,
            _ => return None,
        })
    }
}
/// the value, if this is an expression of the plain kind judged here
pub fn eval(t: &str, var: &dyn Fn(&str) -> Option<f64>) -> Option<f64> {
    let mut p = P { t: t.as_bytes(), at: 0, var };
    let v = p.cmp()?;
    (p.at == t.len()).then_some(v)
}
/// is this printed number that value (NaN prints as NaN)?
pub fn same(text: &str, v: f64) -> bool {
    match text.parse::<f64>() {
        Ok(x) => x == v || (x.is_nan() && v.is_nan()) || (x - v).abs() <= v.abs() * 1e-14,
        Err(_) => false,
    }
}
