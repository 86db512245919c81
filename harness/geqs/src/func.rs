//! Built-in functions and constants.
use geqslib::shunting::*;
use sxlib::*;

pub fn e04_if() {
    let codes = [1.0, 2.0, 3.0, 4.0, 5.0, 0.0, 6.0, 7.0, -1.0, 1.3, 2.7, 4.5, 100.0];
    let i = choose(codes.len());
    let (a, b, t, e) = (real(), real(), real(), real());
    let mut ctx = new_context();
    for (n, v) in [("p", a), ("q", b), ("t", t), ("u", e)] {
        ctx.add_const_to_ctx(n, v);
    }
    ctx.add_const_to_ctx("op", codes[i]);
    let r = eval_str_with_context("if(p, op, q, t, u)", &ctx).unwrap();
    let holds = match [1, 2, 3, 4, 5, 0, 6, 7, 0, 1, 3, 5, 100][i] {
        1 => a == b,
        2 => a <= b,
        3 => a >= b,
        4 => a < b,
        5 => a > b,
        _ => a != b,
    };
    reach(1);
    check(eq(r, if holds { t } else { e }), 10);
    // inside a larger expression it is one operand
    let r = eval_str_with_context("2*if(p, op, q, t, u)+p", &ctx).unwrap();
    check(eq(r, 2.0 * (if holds { t } else { e }) + a), 11);
}

pub fn e04_named() {
    let x = real();
    let y = real();
    let mut ctx = new_context();
    let table: [(&str, fn(f64) -> f64); 13] = [
        ("sin", f64::sin),
        ("cos", f64::cos),
        ("tan", f64::tan),
        ("arcsin", f64::asin),
        ("arccos", f64::acos),
        ("arctan", f64::atan),
        ("sinh", f64::sinh),
        ("cosh", f64::cosh),
        ("tanh", f64::tanh),
        ("ln", f64::ln),
        ("log10", f64::log10),
        ("abs", f64::abs),
        ("pi", |_| std::f64::consts::PI),
    ];
    match choose(5) {
        4 => {
            // sample points, far ones too: the library's value is the platform's
            let (n, f) = table[choose(12)];
            let at = [0.0, 0.5, -0.5, 1.0, -1.0, 2.0, -3.5, 1e-9, -1e-9, 25.0, 709.0, 800.0, -800.0, 1e6, 1e300, -1e300][choose(16)];
            let k = real();
            ctx.add_var_to_ctx("x", at);
            ctx.add_const_to_ctx("k", k);
            let want = f(at);
            if want.is_finite() {
                reach(5);
                let got = eval_str_with_context(&format!("{}(x)", n), &ctx).unwrap();
                check((got - want).abs() <= 1e-12 * (1.0 + want.abs()), 30);
                // and it is an operand like any other
                let got = eval_str_with_context(&format!("k-{}(x)*k", n), &ctx).unwrap();
                check(near(got, k - want * k), 31);
            }
        }
        0 => {
            let (n, f) = table[choose(12)];
            ctx.add_var_to_ctx("x", x);
            reach(1);
            check(eq(eval_str_with_context(&format!("{}(x)", n), &ctx).unwrap(), f(x)), 20);
            check(eq(eval_str_with_context(&format!("{}(x)", n), &ctx).unwrap(), f(x)), 21);
        }
        1 => {
            // log(base, value)
            ctx.add_var_to_ctx("x", x);
            ctx.add_var_to_ctx("y", y);
            assume(x > 0.0 && y > 0.0 && x != 1.0);
            reach(2);
            check(eq(eval_str_with_context("log(x, y)", &ctx).unwrap(), y.log(x)), 22);
        }
        2 => {
            reach(3);
            match (&ctx["pi"], &ctx["e"]) {
                (Token::Num(p), Token::Num(e)) => {
                    check(*p == 3.141592653589793 && *e == 2.718281828459045, 23);
                }
                _ => check(false, 24),
            }
            check(eval_str("pi").unwrap() == std::f64::consts::PI && eval_str("e").unwrap() == std::f64::consts::E, 25);
        }
        _ => {
            // one name: nothing else of the context answers to it, and arity is enforced
            let (n, _) = table[choose(12)];
            reach(4);
            check(eval_str(&format!("{}()", n)).is_err(), 26);
            check(eval_str(&format!("{}(1,2)", n)).is_err(), 27);
            check(eval_str("log(2)").is_err() && eval_str("if(1,1,1,1)").is_err(), 28);
            check(new_context().len() == 16, 29);
        }
    }
}
