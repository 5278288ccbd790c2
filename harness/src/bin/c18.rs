//! C18: bitvector values compute modulo two to the width for every width.
use rand::Rng;
use ruler::BV;
use vharness::engine::*;
use vharness::ensure;

/// Least significant bit first.
type Bits = Vec<bool>;
fn bits(v: u128, n: usize) -> Bits {
    (0..n).map(|i| v >> i & 1 == 1).collect()
}
fn add(a: &Bits, b: &Bits, mut c: bool) -> Bits {
    a.iter()
        .zip(b)
        .map(|(x, y)| {
            let s = x ^ y ^ c;
            c = (*x && *y) || (*x && c) || (*y && c);
            s
        })
        .collect()
}
fn inv(a: &Bits) -> Bits {
    a.iter().map(|x| !x).collect()
}
fn shl(a: &Bits, k: u128) -> Bits {
    (0..a.len()).map(|i| (i as u128) >= k && a[i - k as usize]).collect()
}
fn shr(a: &Bits, k: u128) -> Bits {
    (0..a.len()).map(|i| k < (a.len() - i) as u128 && a[i + k as usize]).collect()
}
fn mul(a: &Bits, b: &Bits) -> Bits {
    let mut acc = vec![false; a.len()];
    for (i, x) in b.iter().enumerate() {
        if *x {
            acc = add(&acc, &shl(a, i as u128), false);
        }
    }
    acc
}
fn zip(a: &Bits, b: &Bits, f: fn(bool, bool) -> bool) -> Bits {
    a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect()
}
fn value(a: &Bits) -> u128 {
    a.iter().enumerate().map(|(i, x)| (*x as u128) << i).sum()
}
/// Decimal text by repeated doubling.
fn decimal(a: &Bits) -> String {
    let mut d = vec![0u8];
    for x in a.iter().rev() {
        let mut c = *x as u8;
        for i in d.iter_mut() {
            let v = *i * 2 + c;
            *i = v % 10;
            c = v / 10;
        }
        if c > 0 {
            d.push(c);
        }
    }
    d.iter().rev().map(|x| (b'0' + x) as char).collect()
}

fn operand(g: &mut G, n: usize) -> u128 {
    let mask = if n == 128 { u128::MAX } else { (1 << n) - 1 };
    let raw = (g.u64() as u128) << 64 | g.u64() as u128;
    let small = g.below(2 * n as u64 + 4) as u128;
    let v = match g.below(8) {
        0 => small,
        1 => mask - small % (mask.saturating_add(1).max(1)).max(1).min(mask).max(1),
        2 => (1u128 << (n - 1)).wrapping_add(small),
        3 => (1u128 << (n - 1)).wrapping_sub(small),
        4 => 1u128 << g.below(n as u64),
        5 => raw >> g.below(128),
        _ => raw,
    };
    v & mask
}

fn all(g: &mut G) -> R {
    let n = match g.below(3) {
        0 => *g.pick(&[1usize, 2, 3, 4, 8, 16, 32, 64, 127, 128]),
        1 => g.size(1, 8),
        _ => g.size(1, 128),
    };
    macro_rules! arms {
        () => {};
    }
    arms!();
    match n {
            1 => check::<1>(g),
            2 => check::<2>(g),
            3 => check::<3>(g),
            4 => check::<4>(g),
            5 => check::<5>(g),
            6 => check::<6>(g),
            7 => check::<7>(g),
            8 => check::<8>(g),
            9 => check::<9>(g),
            10 => check::<10>(g),
            11 => check::<11>(g),
            12 => check::<12>(g),
            13 => check::<13>(g),
            14 => check::<14>(g),
            15 => check::<15>(g),
            16 => check::<16>(g),
            17 => check::<17>(g),
            18 => check::<18>(g),
            19 => check::<19>(g),
            20 => check::<20>(g),
            21 => check::<21>(g),
            22 => check::<22>(g),
            23 => check::<23>(g),
            24 => check::<24>(g),
            25 => check::<25>(g),
            26 => check::<26>(g),
            27 => check::<27>(g),
            28 => check::<28>(g),
            29 => check::<29>(g),
            30 => check::<30>(g),
            31 => check::<31>(g),
            32 => check::<32>(g),
            33 => check::<33>(g),
            34 => check::<34>(g),
            35 => check::<35>(g),
            36 => check::<36>(g),
            37 => check::<37>(g),
            38 => check::<38>(g),
            39 => check::<39>(g),
            40 => check::<40>(g),
            41 => check::<41>(g),
            42 => check::<42>(g),
            43 => check::<43>(g),
            44 => check::<44>(g),
            45 => check::<45>(g),
            46 => check::<46>(g),
            47 => check::<47>(g),
            48 => check::<48>(g),
            49 => check::<49>(g),
            50 => check::<50>(g),
            51 => check::<51>(g),
            52 => check::<52>(g),
            53 => check::<53>(g),
            54 => check::<54>(g),
            55 => check::<55>(g),
            56 => check::<56>(g),
            57 => check::<57>(g),
            58 => check::<58>(g),
            59 => check::<59>(g),
            60 => check::<60>(g),
            61 => check::<61>(g),
            62 => check::<62>(g),
            63 => check::<63>(g),
            64 => check::<64>(g),
            65 => check::<65>(g),
            66 => check::<66>(g),
            67 => check::<67>(g),
            68 => check::<68>(g),
            69 => check::<69>(g),
            70 => check::<70>(g),
            71 => check::<71>(g),
            72 => check::<72>(g),
            73 => check::<73>(g),
            74 => check::<74>(g),
            75 => check::<75>(g),
            76 => check::<76>(g),
            77 => check::<77>(g),
            78 => check::<78>(g),
            79 => check::<79>(g),
            80 => check::<80>(g),
            81 => check::<81>(g),
            82 => check::<82>(g),
            83 => check::<83>(g),
            84 => check::<84>(g),
            85 => check::<85>(g),
            86 => check::<86>(g),
            87 => check::<87>(g),
            88 => check::<88>(g),
            89 => check::<89>(g),
            90 => check::<90>(g),
            91 => check::<91>(g),
            92 => check::<92>(g),
            93 => check::<93>(g),
            94 => check::<94>(g),
            95 => check::<95>(g),
            96 => check::<96>(g),
            97 => check::<97>(g),
            98 => check::<98>(g),
            99 => check::<99>(g),
            100 => check::<100>(g),
            101 => check::<101>(g),
            102 => check::<102>(g),
            103 => check::<103>(g),
            104 => check::<104>(g),
            105 => check::<105>(g),
            106 => check::<106>(g),
            107 => check::<107>(g),
            108 => check::<108>(g),
            109 => check::<109>(g),
            110 => check::<110>(g),
            111 => check::<111>(g),
            112 => check::<112>(g),
            113 => check::<113>(g),
            114 => check::<114>(g),
            115 => check::<115>(g),
            116 => check::<116>(g),
            117 => check::<117>(g),
            118 => check::<118>(g),
            119 => check::<119>(g),
            120 => check::<120>(g),
            121 => check::<121>(g),
            122 => check::<122>(g),
            123 => check::<123>(g),
            124 => check::<124>(g),
            125 => check::<125>(g),
            126 => check::<126>(g),
            127 => check::<127>(g),
            128 => check::<128>(g),
        _ => unreachable!(),
    }
}

fn check<const N: u128>(g: &mut G) -> R {
    let n = N as usize;
    let (x, y) = (operand(g, n), operand(g, n));
    let raw = (g.u64() as u128) << 64 | g.u64() as u128;
    g.input(format!("width {} operands {:#x} {:#x} raw {:#x}", n, x, y, raw));
    g.nontrivial_if(x > 1 && y > 0 && x != y);
    let (a, b) = (bits(x, n), bits(y, n));
    let (p, q) = (BV::<N>::from(x), BV::<N>::from(y));
    let zero = vec![false; n];
    let mut one = zero.clone();
    one[0] = true;
    ensure!(p.0 == x && q.0 == y && BV::<N>::new(x) == p, "construction changes a value within the width");
    ensure!(BV::<N>::from(raw).0 == value(&bits(raw, n)), "construction does not reduce {:#x}: {:#x}", raw, BV::<N>::from(raw).0);
    ensure!(BV::<N>::new(raw).0 == value(&bits(raw, n)), "construction does not reduce {:#x}", raw);
    ensure!(BV::<N>::new(raw as u8).0 == value(&bits(raw & 255, n)), "construction from a byte");
    let results: Vec<(&str, BV<N>, Bits)> = vec![
        ("add", p.wrapping_add(q), add(&a, &b, false)),
        ("sub", p.wrapping_sub(q), add(&a, &inv(&b), true)),
        ("mul", p.wrapping_mul(q), mul(&a, &b)),
        ("neg", p.wrapping_neg(), add(&inv(&a), &zero, true)),
        ("not", !p, inv(&a)),
        ("and", p & q, zip(&a, &b, |x, y| x && y)),
        ("or", p | q, zip(&a, &b, |x, y| x || y)),
        ("xor", p ^ q, zip(&a, &b, |x, y| x != y)),
        ("shl", p.my_shl(q), shl(&a, y)),
        ("shr", p.my_shr(q), shr(&a, y)),
        ("ZERO", BV::<N>::ZERO, zero.clone()),
        ("ALL_ONES", BV::<N>::ALL_ONES, inv(&zero)),
        ("NEG_ONE", BV::<N>::NEG_ONE, add(&zero, &inv(&one), true)),
        ("MIN", BV::<N>::MIN, shl(&one, N - 1)),
        ("MAX", BV::<N>::MAX, inv(&shl(&one, N - 1))),
    ];
    for (op, got, want) in &results {
        ensure!(got.0 == value(want), "{} gives {:#x}, expected {:#x}", op, got.0, value(want));
        ensure!(format!("{}", got) == decimal(want), "{} prints as {}, expected {}", op, got, decimal(want));
        ensure!(format!("{:?}", got) == decimal(want), "{} prints as {:?} for debugging", op, got);
    }
    ensure!((p < q) == (x < y) && (p == q) == (x == y), "order or equality of values");
    // text
    let v = results[g.size(0, results.len() - 1)].1;
    match v.to_string().parse::<BV<N>>() {
        Ok(w) => ensure!(w == v, "{} reads back as {}", v, w),
        Err(e) => ensure!(false, "{} does not read back: {}", v, e),
    }
    let j = serde_json::to_string(&v).map_err(|e| Stop::Fail(e.to_string()))?;
    ensure!(j == v.to_string(), "{} is serialised as {}", v, j);
    match serde_json::from_str::<BV<N>>(&j) {
        Ok(w) => ensure!(w == v, "{} is deserialised as {}", j, w),
        Err(e) => ensure!(false, "{} does not deserialise: {}", j, e),
    }
    let dec = decimal(&bits(raw, 128));
    let pad = "0".repeat(g.size(0, 3));
    let text = format!("{}{}", pad, dec);
    match text.parse::<BV<N>>() {
        Ok(w) => ensure!(w.0 == value(&bits(raw, n)), "{} reads as {:#x}", text, w.0),
        Err(e) => ensure!(false, "{} is rejected: {}", text, e),
    }
    let len = g.size(1, 128);
    let bin: String = (0..len).rev().map(|i| if raw >> i & 1 == 1 { '1' } else { '0' }).collect();
    let text = format!("#b{}{}", pad, bin);
    match text.parse::<BV<N>>() {
        Ok(w) => ensure!(w.0 == value(&bits(raw, n.min(len))), "{} reads as {:#x}", text, w.0),
        Err(e) => ensure!(false, "{} is rejected: {}", text, e),
    }
    Ok(())
}

/// Malformed text is an error.
fn malformed(g: &mut G) -> R {
    let digits = ["0", "1", "7", "10", "255", "340282366920938463463374607431768211455"];
    let bins = ["", "0", "1", "0101"];
    let junk = ["", " ", "2", "a", "x", "-", ".", "_", "#", "b", "#b", "é", "9"];
    let t = match g.below(6) {
        0 => "".to_string(),
        1 => "#b".to_string(),
        2 => {
            let k = junk[g.size(2, junk.len() - 1)];
            let (s, e) = (g.pick(&bins).to_string(), g.pick(&bins).to_string());
            format!("#b{}{}{}", s, k, e)
        }
        3 => {
            let k = g.pick(&[" ", "a", "x", "-", ".", "_", "#", "b", "é"]).to_string();
            if g.bool() {
                format!("{}{}", g.pick(&digits), k)
            } else {
                format!("{}{}", k, g.pick(&digits))
            }
        }
        4 => "340282366920938463463374607431768211456".to_string() + &"0".repeat(g.size(0, 3)),
        _ => format!("#b1{}", "01".repeat(64)),
    };
    g.input(format!("{:?}", t));
    g.nontrivial();
    fn one<const N: u128>(t: &str) -> R {
        ensure!(t.parse::<BV<N>>().is_err(), "{:?} is accepted at width {}", t, N);
        Ok(())
    }
    one::<1>(&t)?;
    one::<4>(&t)?;
    one::<64>(&t)?;
    one::<127>(&t)?;
    one::<128>(&t)
}

/// Sampling stays within the width.
fn sampling(g: &mut G) -> R {
    use rand::SeedableRng;
    let seed = g.u64();
    g.input(format!("seed {}", seed));
    g.nontrivial();
    let mut rng = rand_pcg::Pcg64::seed_from_u64(seed);
    fn one<const N: u128>(rng: &mut rand_pcg::Pcg64) -> R {
        let v: BV<N> = rng.gen();
        ensure!(v.0 <= value(&vec![true; N as usize]), "sampled {:#x} at width {}", v.0, N);
        Ok(())
    }
    one::<1>(&mut rng)?;
    one::<4>(&mut rng)?;
    one::<32>(&mut rng)?;
    one::<65>(&mut rng)?;
    one::<127>(&mut rng)?;
    one::<128>(&mut rng)
}

fn main() {
    vharness::engine::main(Prop {
        id: "C18",
        rule: "all: every width 1..128 (common and small ones more often), operands random, near the ends and the middle of the range, powers of two and small (shift amounts); every operation and constant against bit-by-bit arithmetic, printing, serialising, decimal and binary reading with reduction. malformed: texts that are no number. sampling: random values. Non-trivial: operands differ and are not 0 or 1.",
        assumptions: &["a leading plus sign is not judged"],
        subs: vec![
            Sub { name: "all", quick: 1_500_000, thorough: 20_000_000, f: all },
            Sub { name: "malformed", quick: 20_000, thorough: 200_000, f: malformed },
            Sub { name: "sampling", quick: 20_000, thorough: 200_000, f: sampling },
        ],
        init: || {},
    })
}
