//! Executor: runs single operations of the real code, one command per line on stdin,
//! one result per line on stdout. Contains no oracle: expected results are worked out
//! by the Python side. The file becomes module `vp_exec` of a scratch copy of the crate.
#![allow(dead_code, unused_imports)]
use crate::ast::op::operand::{AstOperand, Variable};
use crate::ast::op::operator::OperatorType;
use crate::ast::tree::{AstNode, Expression};
use crate::compute::derivative::Derivative;
use crate::compute::limit::limit_expression::LimitExpression;
use crate::compute::num_aggregate::NumAggregate;
use crate::compute::substitute::Substitute;
use crate::compute::taylor_expansion::partial_expansion::TaylorExpansion;
use crate::math_op::{cos::Cos, exp::Exp, ln::Ln, pow::Pow, sin::Sin};
use crate::smart_num::rational::{RationalNum, ToRational};
use crate::smart_num::val_holder::IsClose;
use crate::smart_num::{SmartNum, ToSmartNum};
use std::io::{BufRead, Write};

#[derive(Debug, Clone)]
enum S { A(String), L(Vec<S>) }
fn parse(s: &str) -> Vec<S> {
    let mut st: Vec<Vec<S>> = vec![vec![]];
    let mut cur = String::new();
    for ch in s.chars() {
        match ch {
            '(' | ')' | ' ' => {
                if !cur.is_empty() { let t = std::mem::take(&mut cur); st.last_mut().unwrap().push(S::A(t)); }
                if ch == '(' { st.push(vec![]); }
                if ch == ')' { let l = st.pop().unwrap(); st.last_mut().unwrap().push(S::L(l)); }
            }
            c => cur.push(c),
        }
    }
    if !cur.is_empty() { st.last_mut().unwrap().push(S::A(cur)); }
    st.pop().unwrap()
}
impl S {
    fn a(&self) -> &str { match self { S::A(s) => s, _ => panic!("bad command") } }
    fn l(&self) -> &[S] { match self { S::L(l) => l, _ => panic!("bad command") } }
    fn n<T: std::str::FromStr>(&self) -> T { match self.a().parse() { Ok(v) => v, Err(_) => panic!("bad command") } }
}
fn f(bits: &str) -> f64 { f64::from_bits(u64::from_str_radix(bits, 16).unwrap()) }
fn rat(s: &S) -> RationalNum { let l = &s.l()[1..]; RationalNum { sign: l[0].n(), nominator: l[1].n(), denominator: l[2].n() } }
fn num(s: &S) -> SmartNum {
    match s {
        S::A(a) if a == "pi" => SmartNum::pi(),
        S::A(a) if a == "e" => SmartNum::e(),
        S::A(a) if a == "zero" => SmartNum::zero(),
        S::A(a) if a == "one" => SmartNum::one(),
        S::A(_) => panic!("bad command"),
        S::L(l) => match l[0].a() {
            "i" => SmartNum::from(l[1].n::<i64>()),
            "w" => SmartNum::from(l[1].n::<u64>()),
            "q" => SmartNum::new_rational(l[1].n(), l[2].n(), l[3].n()).unwrap(),
            "f" => SmartNum::from(f(l[1].a())),
            // results of operations, so that every reachable state can be an operand
            "+" => num(&l[1]) + num(&l[2]),
            "-" => num(&l[1]) - num(&l[2]),
            "*" => num(&l[1]) * num(&l[2]),
            "/" => num(&l[1]) / num(&l[2]),
            "neg" => -num(&l[1]),
            _ => panic!("bad command"),
        },
    }
}
// variable names travel with %XX for every byte that is not a letter, digit or underscore, and % for the empty name
fn name_of(t: &str) -> String {
    let (b, mut out, mut i) = (t.as_bytes(), vec![], 0);
    if t == "%" { return String::new(); }
    while i < b.len() {
        if b[i] == b'%' { out.push(u8::from_str_radix(&t[i + 1..i + 3], 16).unwrap()); i += 3; } else { out.push(b[i]); i += 1; }
    }
    String::from_utf8(out).unwrap()
}
fn show_name(n: &str) -> String {
    if n.is_empty() { return "%".into(); }
    n.bytes().map(|c| if c.is_ascii_alphanumeric() || c == b'_' { (c as char).to_string() } else { format!("%{:02X}", c) }).collect()
}
fn expr(s: &S) -> Expression {
    if let S::L(l) = s {
        match l[0].a() {
            "v" => return Expression::new_variable(&name_of(l[1].a())),
            "Neg" => return -expr(&l[1]),
            "Sin" => return expr(&l[1]).sin(),
            "Cos" => return expr(&l[1]).cos(),
            "Exp" => return expr(&l[1]).exp(),
            "Ln" => return expr(&l[1]).ln(),
            "Add" => return expr(&l[1]) + expr(&l[2]),
            "Sub" => return expr(&l[1]) - expr(&l[2]),
            "Mul" => return expr(&l[1]) * expr(&l[2]),
            "Div" => return expr(&l[1]) / expr(&l[2]),
            "Pow" => return expr(&l[1]).pow(expr(&l[2])),
            _ => {}
        }
    }
    Expression::from(num(s))
}
fn show_rat(q: &RationalNum) -> String { format!("(q {} {} {})", q.sign, q.nominator, q.denominator) }
fn show_num(n: &SmartNum) -> String {
    let v = if let Some(i) = n.to_i64() { format!("i {}", i) }
        else if let Some(q) = n.to_rational() { format!("q {} {} {}", q.sign, q.nominator, q.denominator) }
        else { format!("f {:x}", n.to_f64().to_bits()) };
    let mut t = String::new();
    if n.is_zero() { t.push('Z') }
    if n.is_one() { t.push('O') }
    if n.is_pi() { t.push('P') }
    if n.is_e() { t.push('E') }
    if t.is_empty() { t.push('-') }
    format!("({} {})", v, t)
}
fn op_name(d: &OperatorType) -> String { format!("{:?}", d) }
fn show(e: &Expression) -> String {
    match &e.root {
        AstNode::Operand(AstOperand::Num(n)) => if e.child.is_empty() { show_num(n) } else { format!("(bad {})", e.child.len()) },
        AstNode::Operand(AstOperand::Variable(v)) => if e.child.is_empty() { format!("(v {})", show_name(&v.name)) } else { format!("(bad {})", e.child.len()) },
        AstNode::Operator(o) => {
            let mut s = format!("({}", op_name(&o.descriptor));
            for c in &e.child { s.push(' '); s.push_str(&show(c)); }
            s.push(')');
            // the operator's own printed symbol and priority
            format!("(op {} {} {})", o.symbol, o.priority, s)
        }
    }
}
fn show_lim(l: &LimitExpression) -> String {
    match l {
        LimitExpression::Infinitesimal => "Z".into(),
        LimitExpression::Infinity => "I".into(),
        LimitExpression::BoundedFluctuation => "B".into(),
        LimitExpression::Normal(e) => format!("(val {})", show(e)),
    }
}
fn lim(s: &S) -> LimitExpression {
    match s {
        S::A(a) if a == "Z" => LimitExpression::Infinitesimal,
        S::A(a) if a == "I" => LimitExpression::Infinity,
        S::A(a) if a == "B" => LimitExpression::BoundedFluctuation,
        S::L(l) => LimitExpression::Normal(expr(&l[1])),
        _ => panic!("bad command"),
    }
}
fn var(s: &S) -> Variable { Variable { name: name_of(s.l()[1].a()) } }
fn r2<T, E>(r: Result<T, E>, show: impl Fn(&T) -> String) -> String { match r { Ok(v) => format!("ok {}", show(&v)), Err(_) => "err".into() } }
fn o2<T>(r: Option<T>, show: impl Fn(&T) -> String) -> String { match r { Some(v) => format!("some {}", show(&v)), None => "none".into() } }
fn quote(s: &str) -> String { format!("text {}", s.replace('\\', "\\\\").replace('\n', "\\n")) }

fn run(c: &[S]) -> String {
    match c[0].a() {
        "rat" => match c[1].a() {
            "add" => show_rat(&(rat(&c[2]) + rat(&c[3]))),
            "sub" => show_rat(&(rat(&c[2]) - rat(&c[3]))),
            "mul" => show_rat(&(rat(&c[2]) * rat(&c[3]))),
            "div" => show_rat(&(rat(&c[2]) / rat(&c[3]))),
            "neg" => show_rat(&(-rat(&c[2]))),
            "reduce" => show_rat(&rat(&c[2]).reduce()),
            "eq" => format!("{}", rat(&c[2]) == rat(&c[3])),
            "new" => o2(RationalNum::new(c[2].n(), c[3].n(), c[4].n()), show_rat),
            "newpos" => o2(RationalNum::new_positive(c[2].n(), c[3].n()), show_rat),
            "newneg" => o2(RationalNum::new_negative(c[2].n(), c[3].n()), show_rat),
            "u64" => show_rat(&RationalNum::from(c[2].n::<u64>())),
            "i64" => show_rat(&RationalNum::from(c[2].n::<i64>())),
            "f64" => format!("{:x}", rat(&c[2]).to_f64().to_bits()),
            "aggagg" => show(&expr(&c[1]).num_aggregate().num_aggregate()),
        "text" => quote(&rat(&c[2]).to_string()),
            _ => panic!("bad command"),
        },
        "num" => match c[1].a() {
            "echo" => show_num(&num(&c[2])),
            "new" => o2(SmartNum::new_rational(c[2].n(), c[3].n(), c[4].n()), show_num),
            "u8" => show_num(&SmartNum::from(c[2].n::<u8>())),
            "i8" => show_num(&SmartNum::from(c[2].n::<i8>())),
            "u16" => show_num(&SmartNum::from(c[2].n::<u16>())),
            "i16" => show_num(&SmartNum::from(c[2].n::<i16>())),
            "u32" => show_num(&SmartNum::from(c[2].n::<u32>())),
            "i32" => show_num(&SmartNum::from(c[2].n::<i32>())),
            "u64" => show_num(&SmartNum::from(c[2].n::<u64>())),
            "i64" => show_num(&SmartNum::from(c[2].n::<i64>())),
            "f64" => show_num(&SmartNum::from(f(c[2].a()))),
            "f32" => show_num(&SmartNum::from(f32::from_bits(u32::from_str_radix(c[2].a(), 16).unwrap()))),
            "sign" => format!("{}", num(&c[2]).sign()),
            "i64of" => o2(num(&c[2]).to_i64(), |v| v.to_string()),
            "f64of" => format!("{:x}", num(&c[2]).to_f64().to_bits()),
            "ratof" => o2(num(&c[2]).to_rational(), show_rat),
            "ratofr" => o2((&num(&c[2])).to_rational(), show_rat),
            "close" => format!("{} {}", num(&c[2]).is_close(num(&c[3]), f(c[4].a())), (&num(&c[2])).is_close(&num(&c[3]), f(c[4].a()))),
            "aggagg" => show(&expr(&c[1]).num_aggregate().num_aggregate()),
        "text" => quote(&num(&c[2]).to_string()),
            _ => panic!("bad command"),
        },
        "echo" => show(&expr(&c[1])),
        "agg" => show(&expr(&c[1]).num_aggregate()),
        "aggagg" => show(&expr(&c[1]).num_aggregate().num_aggregate()),
        "text" => quote(&expr(&c[1]).to_string()),
        "is" => {
            let e = expr(&c[1]);
            format!("{} {} {} {} {} {} {}", e.is_operator(), e.is_operand(), e.is_num(), e.is_zero(), e.is_one(), e.is_pi(), e.is_e())
        }
        "opeq" => {
            let (a, b) = (expr(&c[1]), expr(&c[2]));
            match (&a.root, &b.root) {
                (crate::ast::tree::AstNode::Operator(x), crate::ast::tree::AstNode::Operator(y)) => format!("{} {} {}", x == y, y == x, x != y),
                _ => "none".to_string(),
            }
        }
        "near" => r2(expr(&c[1]).near(&expr(&c[2]), f(c[3].a())), |b| b.to_string()),
        "tonum" => format!("{} {}", r2(expr(&c[1]).to_smart_num(), show_num), r2((&expr(&c[1])).to_smart_num(), |n| show_num(n))),
        "torat" => format!("{} {}", o2(expr(&c[1]).to_rational(), show_rat), o2((&expr(&c[1])).to_rational(), show_rat)),
        "deriv" => match c[1].a() {
            "own" => r2(expr(&c[2]).derivative(expr(&c[3])), show),
            "ref" => r2(expr(&c[2]).derivative(&expr(&c[3])), show),
            "var" => r2(expr(&c[2]).derivative(&var(&c[3])), show),
            _ => panic!("bad command"),
        },
        "subst" => match c[1].a() {
            "own" => r2(expr(&c[2]).substitute(expr(&c[3]), expr(&c[4])), show),
            "ref" => r2(expr(&c[2]).substitute(&expr(&c[3]), &expr(&c[4])), show),
            "var" => r2(expr(&c[2]).substitute(&var(&c[3]), &expr(&c[4])), show),
            _ => panic!("bad command"),
        },
        "taylor" => {
            let r = match c[1].a() {
                "own" => expr(&c[2]).taylor_expansion(expr(&c[3]), expr(&c[4]), c[5].n()),
                "var" => expr(&c[2]).taylor_expansion(&var(&c[3]), &expr(&c[4]), c[5].n()),
                _ => panic!("bad command"),
            };
            r2(r, |p| {
                let mut s = format!("({} {} {} (", p.order, show(&p.of), show(&p.at));
                for t in &p.coefficient { s.push_str(&show(t)); s.push(' '); }
                s.push_str(&format!(") {})", show(&p.residual)));
                s
            })
        }
        "taylortext" => match expr(&c[1]).taylor_expansion(expr(&c[2]), expr(&c[3]), c[4].n()) { Ok(p) => quote(&p.to_string()), Err(_) => "err".into() },
        "limit" => match c[1].a() {
            "own" => r2(crate::compute::limit::vp_hook::own(expr(&c[2]), expr(&c[3]), expr(&c[4]), c[5].n()), show_lim),
            "var" => r2(crate::compute::limit::vp_hook::var(expr(&c[2]), &var(&c[3]), expr(&c[4]), c[5].n()), show_lim),
            _ => panic!("bad command"),
        },
        "limalg" => match c[1].a() {
            "neg" => format!("ok {}", show_lim(&(-lim(&c[2])))),
            "add" => r2(lim(&c[2]) + lim(&c[3]), show_lim),
            "sub" => r2(lim(&c[2]) - lim(&c[3]), show_lim),
            "mul" => r2(lim(&c[2]) * lim(&c[3]), show_lim),
            "div" => r2(lim(&c[2]) / lim(&c[3]), show_lim),
            _ => panic!("bad command"),
        },
        "limtext" => quote(&lim(&c[1]).to_string()),
        _ => panic!("bad command"),
    }
}

pub fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
        let stdin = std::io::stdin();
        let mut out = std::io::stdout().lock();
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            let r = std::panic::catch_unwind(|| run(&parse(&line)));
            let text = match r {
                Ok(s) => s,
                Err(p) => {
                    let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                    format!("!panic {}", m.replace('\n', " "))
                }
            };
            out.write_all(text.as_bytes()).unwrap();
            out.write_all(b"\n").unwrap();
            out.flush().unwrap();
        }
    }).unwrap().join().unwrap();
}
