#!/usr/bin/env node
// Check of C24: the report pages of infra/nightly-resources, run as a browser would run them.
//
// Property-based: choice-sequence generators with shrinking (as in harness/src/engine.rs), pages
// loaded from their HTML (script order, onload and onclick attributes) into a vm context with a
// stand-in document, and the shown text compared with an independent reading of the records.
"use strict";
const fs = require("fs");
const path = require("path");
const vm = require("vm");
const crypto = require("crypto");

const VERIF = process.env.VERIF_DIR || path.resolve(__dirname, "..");
const RES = "/repo/infra/nightly-resources";
const THOROUGH = process.env.VERIF_TIER === "thorough";
const SEED = parseInt(process.env.VERIF_SEED || "1", 10) || 0;
const SCALE = parseFloat(process.env.VERIF_SCALE || "1");

// ---------------------------------------------------------------- choices
class Discard extends Error {}
class Fail extends Error {}
const fail = (m) => {
  throw new Fail(m);
};
const ensure = (c, m) => {
  if (!c) fail(typeof m === "function" ? m() : m);
};

function rng(seedText) {
  const h = crypto.createHash("sha256").update(seedText).digest();
  let a = h.readUInt32LE(0), b = h.readUInt32LE(4), c = h.readUInt32LE(8), d = h.readUInt32LE(12);
  return () => {
    // sfc32
    a |= 0; b |= 0; c |= 0; d |= 0;
    const t = (((a + b) | 0) + d) | 0;
    d = (d + 1) | 0;
    a = b ^ (b >>> 9);
    b = (c + (c << 3)) | 0;
    c = (c << 21) | (c >>> 11);
    c = (c + t) | 0;
    return t >>> 0;
  };
}

class G {
  constructor(next, given) {
    this.next = next;
    this.given = given;
    this.rec = [];
    this.desc = "";
    this.nontrivial = false;
    this.labels = new Set();
  }
  below(n) {
    const v = this.next
      ? Math.floor((this.next() / 4294967296) * n)
      : Math.min(this.given[this.rec.length] ?? 0, n - 1);
    this.rec.push(v);
    return v;
  }
  size(lo, hi) {
    return lo + this.below(hi - lo + 1);
  }
  small(lo, hi) {
    return Math.min(this.size(lo, hi), this.size(lo, hi));
  }
  chance(pct) {
    return this.below(100) >= 100 - pct;
  }
  pick(xs) {
    return xs[this.below(xs.length)];
  }
  shuffle(xs) {
    for (let i = 0; i + 1 < xs.length; i++) {
      const j = i + this.below(xs.length - i);
      [xs[i], xs[j]] = [xs[j], xs[i]];
    }
    return xs;
  }
  label(l) {
    this.labels.add(l);
  }
}

// ---------------------------------------------------------------- browser stand-in
const compiled = new Map();
function script(file) {
  if (!compiled.has(file)) {
    compiled.set(file, new vm.Script(fs.readFileSync(file, "utf8"), { filename: file }));
  }
  return compiled.get(file);
}
const pages = new Map();
function pageSource(name) {
  if (!pages.has(name)) {
    const html = fs.readFileSync(path.join(RES, name), "utf8");
    pages.set(name, {
      scripts: [...html.matchAll(/<script[^>]*\bsrc\s*=\s*["']([^"']+)["']/gi)].map((m) => m[1]),
      onload: (html.match(/<body[^>]*\bonload\s*=\s*"([^"]*)"/i) || [])[1],
      buttons: [...html.matchAll(/\bonclick\s*=\s*"([^"]*)"/gi)].map((m) => m[1]),
      ids: [...html.matchAll(/\bid\s*=\s*["']([^"']+)["']/gi)].map((m) => m[1]),
    });
  }
  return pages.get(name);
}
class Page {
  constructor(name, data, search) {
    const src = pageSource(name);
    this.src = src;
    this.els = Object.fromEntries(src.ids.map((i) => [i, { innerHTML: "", style: {} }]));
    const document = { getElementById: (i) => this.els[i] || null };
    const g = { document, URLSearchParams, console: { log() {}, error() {}, warn() {} } };
    g.location = { search: search || "" };
    g.window = g;
    this.ctx = vm.createContext(g);
    for (const s of src.scripts) {
      if (s === "data/output.js") {
        vm.runInContext("var data = \n" + JSON.stringify(data, null, 2), this.ctx);
      } else {
        script(path.join(RES, s)).runInContext(this.ctx);
      }
    }
  }
  run(code) {
    return vm.runInContext(code, this.ctx);
  }
  load() {
    ensure(this.src.onload, "the page has no onload");
    this.run(this.src.onload);
  }
  html(id) {
    ensure(this.els[id], `the page has no element ${id}`);
    return String(this.els[id].innerHTML);
  }
  /// The records as the page holds them now.
  data() {
    return JSON.stringify(this.run("data"));
  }
}

// ---------------------------------------------------------------- reading what is shown
const text = (h) =>
  h
    .replace(/<\/?(i|b|p|a|span|em|strong|code|table|thead|tbody|tr|td|th)(\s[^>]*)?>/gi, "")
    .replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&amp;/g, "&").trim();
const lines = (h) => h.split(/<br\s*\/?>/i).map(text).filter((x) => x !== "");
function table(h) {
  const head = [...h.matchAll(/<th(?:\s[^>]*)?>([\s\S]*?)<\/th>/gi)].map((m) => text(m[1]));
  const rows = [...h.matchAll(/<tr(?:\s[^>]*)?>([\s\S]*?)<\/tr>/gi)]
    .map((m) => [...m[1].matchAll(/<td(?:\s[^>]*)?>([\s\S]*?)<\/td>/gi)].map((x) => x[1]))
    .filter((r) => r.length > 0);
  return { head, rows: rows.map((r) => Object.fromEntries(head.map((k, i) => [k, r[i]]))), raw: rows };
}
const decimals = (s) => (s.split(".")[1] || "").length;
/// The shown number is the value rounded to the decimals shown: at least `min`, or the exact value.
function isNumber(shown, value, min) {
  if (!/^-?\d+(\.\d+)?$/.test(shown)) return false;
  const d = decimals(shown);
  const err = Math.abs(Number(shown) - value);
  if (err <= 1e-12 * Math.max(1, Math.abs(value))) return true;
  return d >= min && err <= 0.5 * 10 ** -d * (1 + 1e-9) + 1e-9 * Math.abs(value);
}
const isTime = (shown, value) => isNumber(shown, value, 2);
/// The shown text is the percentage of the rules in the derivable part.
function isShare(shown, o) {
  if (!o) return shown === "-";
  const n = o.can.length + o.cannot.length;
  if (n === 0) return /^(-|\d+(\.\d+)?\\?%)$/.test(shown);
  const m = shown.match(/^(\d+(?:\.\d+)?)\s*\\?%$/);
  return !!m && isNumber(m[1], (100 * o.can.length) / n, 1);
}
/// What is wrong with the shown list of rules, or null.
function wrongRules(shown, rules) {
  if (!rules || rules.length === 0) return shown.length === 1 && shown[0] === "-" ? null : "no rules must show as a dash";
  const left = new Map();
  for (const r of rules) left.set(r, (left.get(r) || 0) + 1);
  const all = new Set(rules);
  for (const l of shown) {
    let parts, own = [];
    if ((parts = l.split(" <=> ")).length === 2) {
      const [a, b] = parts;
      own = a === b ? [`${a} ==> ${b}`] : [`${a} ==> ${b}`, `${b} ==> ${a}`];
    } else if ((parts = l.split(" ==> ")).length === 2) {
      const [a, b] = parts;
      own = [l];
      if (a !== b && all.has(l) && all.has(`${b} ==> ${a}`)) return `"${l}" has its reverse in the list but is shown one-way`;
    } else {
      return `"${l}" is no rule`;
    }
    for (const r of own) {
      if (!all.has(r)) return `"${l}" shows ${r}, which is not in the list`;
      const n = left.get(r) || 0;
      if (n === 0) return `${r} is shown more than once`;
      left.set(r, n - 1);
    }
  }
  for (const [r, n] of left) if (n > 0) return `${r} is not shown`;
  return null;
}

// ---------------------------------------------------------------- generators
const OPS = [["~", 1], ["-", 1], ["sqrt", 1], ["+", 2], ["*", 2], ["<<", 2], [">>", 2], ["&", 2], ["<", 2], ["<=", 2], [">=", 2], ["==", 2], ["&&", 2], ["if", 3]];
const TRIG = [["sin", 1], ["cos", 1], ["tan", 1]];
function term(g, depth, trig) {
  if (depth === 0 || g.chance(30)) return g.pick(["?a", "?b", "?c", "?x", "0", "1", "2", "PI", "-1", "1/2", "#b0011"]);
  const [op, n] = g.pick(trig && g.chance(50) ? TRIG : OPS);
  const args = [];
  for (let i = 0; i < n; i++) args.push(term(g, depth - 1, trig));
  return `(${op} ${args.join(" ")})`;
}
/// A list of distinct rules in random order, some with their reverse, some in chains and cycles.
function ruleList(g, max, trig) {
  const n = g.small(0, max);
  const out = new Set();
  const sides = [];
  const side = () => {
    if (sides.length > 0 && g.chance(30)) return g.pick(sides);
    const t = term(g, g.size(0, 2), trig);
    sides.push(t);
    return t;
  };
  for (let i = 0; i < n; i++) {
    const a = side(), b = side();
    out.add(`${a} ==> ${b}`);
    if (g.chance(50)) out.add(`${b} ==> ${a}`);
  }
  const xs = [...out];
  return g.chance(70) ? g.shuffle(xs) : xs;
}
function time(g) {
  switch (g.below(5)) {
    case 0: return g.below(10);
    case 1: return g.below(100000) / 1000;
    case 2: return g.below(1000000000) / 1e9;
    case 3: return g.below(1000000000) / 1e6;
    default: return g.below(1000) / 8;
  }
}
/// Splits rules into a derivable and a remaining part, as a derivability record.
function split(g, rules) {
  const o = { can: [], cannot: [], time: time(g) };
  const mode = g.below(4);
  for (const r of rules) (mode === 0 ? o.can : mode === 1 ? o.cannot : g.chance(50) ? o.can : o.cannot).push(r);
  return o;
}
function both(g, rules) {
  return { lhs: { derive_type: "Lhs", ...split(g, rules) }, lhs_rhs: { derive_type: "LhsAndRhs", ...split(g, rules) } };
}
function baselineRow(g, spec, baseline, missEB, missBE) {
  const rules = ruleList(g, 8), base = ruleList(g, 8);
  return {
    TYPE: "baseline", spec_name: spec, baseline_name: baseline,
    loc: g.chance(20) ? "-" : String(g.below(300)),
    rules, time: time(g),
    derivability: {
      enumo_derives_baseline: missEB ? {} : both(g, base),
      baseline_derives_enumo: missBE ? {} : both(g, rules),
    },
  };
}
function bvRow(g, domain) {
  const gen = ruleList(g, 8);
  return {
    TYPE: "bv", domain,
    direct_gen: { rules: gen, time: time(g) },
    from_bv4: { rules: ruleList(g, 8), time: time(g) },
    derivability: { lhs: split(g, gen), lhs_rhs: split(g, gen) },
  };
}
function ffRow(g) {
  const ph = () => g.pick(["Simple R", "Compress R", "Saturating A", "E", "R - A", "Compress E", "A"]);
  return { TYPE: "ff_phases", phase1: ph(), phase2: ph(), phase3: ph(), time: time(g), rules: ruleList(g, 8, true) };
}
const SPECS = ["bool", "bv4_base", "bv32", "rational_replicate", "rational_best", "exponential", "trig", "halide", "bv4_fancy", "custom1", "custom2"];
const BASELINES = ["oopsla", "herbie", "halide"];
function records(g) {
  const specs = g.shuffle([...SPECS]);
  const n = g.small(0, 6);
  const out = [];
  for (let i = 0; i < n; i++) out.push(baselineRow(g, specs[i], g.pick(BASELINES), g.chance(15), g.chance(25)));
  const doms = g.shuffle(["bv8", "bv16", "bv32", "bv64", "bv128"]);
  const m = g.small(0, 4);
  for (let i = 0; i < m; i++) out.push(bvRow(g, doms[i]));
  const k = g.small(0, 4);
  for (let i = 0; i < k; i++) out.push(ffRow(g));
  return g.shuffle(out);
}

// ---------------------------------------------------------------- expectations
const dom = (t) => ({ is: (c) => text(c) === t, want: t });
const count = (n) => ({ is: (c) => text(c) === String(n), want: String(n) });
const tm = (v) => ({ is: (c) => isTime(text(c), v), want: `time ${v}` });
const share = (o) => ({ is: (c) => isShare(text(c), o), want: o ? `${o.can.length} of ${o.can.length + o.cannot.length}` : "-" });
const pair = (is, a, b, want) => ({
  is: (c) => {
    const p = text(c).split(" / ");
    return p.length === 2 && is(p[0], a) && is(p[1], b);
  },
  want,
});
const shares = (d) => pair(isShare, d.lhs, d.lhs_rhs, d.lhs ? `${share(d.lhs).want} / ${share(d.lhs_rhs).want}` : "- / -");
const times = (d) => (d.lhs ? pair(isTime, d.lhs.time, d.lhs_rhs.time, `${d.lhs.time} / ${d.lhs_rhs.time}`) : { is: (c) => /^-( \/ -)?$/.test(text(c)), want: "-" });
const list = (rs) => ({ is: (c) => wrongRules(lines(c), rs) === null, want: JSON.stringify(rs), why: (c) => wrongRules(lines(c), rs) });

const expectBaseline = (r) => ({
  Baseline: dom(r.baseline_name), "Enumo Spec": dom(r.spec_name), "Enumo LOC": dom(r.loc), "# Enumo": count(r.rules.length), "Time (s)": tm(r.time),
  "Enumo Derives Baseline (LHS / LHSRHS)": shares(r.derivability.enumo_derives_baseline),
  "Enumo derives Baseline Time (s)": times(r.derivability.enumo_derives_baseline),
  "Baseline Derives Enumo (LHS / LHSRHS)": shares(r.derivability.baseline_derives_enumo),
  "Baseline derives Enumo Time (s)": times(r.derivability.baseline_derives_enumo),
});
const expectBv = (r) => ({
  Domain: dom(r.domain), Generated: count(r.direct_gen.rules.length), "Gen Time (s)": tm(r.direct_gen.time),
  "From BV4": count(r.from_bv4.rules.length), "From BV4 Time (s)": tm(r.from_bv4.time),
  LHS: share(r.derivability.lhs), "LHS Time": tm(r.derivability.lhs.time), "LHS Missing": list(r.derivability.lhs.cannot),
  "LHS-RHS": share(r.derivability.lhs_rhs), "LHS-RHS Time": tm(r.derivability.lhs_rhs.time), "LHS-RHS Missing": list(r.derivability.lhs_rhs.cannot),
});
const trig = (r) => /\((sin|cos|tan) /.test(r);
const expectFF = (r) => ({
  "Phase 1": dom(r.phase1), "Phase 2": dom(r.phase2), "Phase 3": dom(r.phase3), Time: tm(r.time), "Trig Rules": count(r.rules.filter(trig).length),
});

function checkTable(what, html, recs, expect) {
  const t = table(html);
  if (recs.length === 0) {
    ensure(t.raw.flat().every((c) => text(c) === ""), () => `${what}: without records the table shows ${html}`);
    return;
  }
  ensure(t.rows.length === recs.length, () => `${what}: ${recs.length} records but ${t.rows.length} rows`);
  const free = new Set(t.rows.keys());
  recs.forEach((r, i) => {
    const e = expect(r);
    const bad = (row) => Object.keys(e).find((k) => row[k] === undefined || !e[k].is(row[k]));
    const order = [i, ...free].filter((x, j, xs) => free.has(x) && xs.indexOf(x) === j);
    const hit = order.find((x) => bad(t.rows[x]) === undefined);
    if (hit === undefined) {
      const row = t.rows[i], k = bad(row);
      fail(`${what}, row ${i + 1}, column "${k}": shown ${JSON.stringify(row[k])}, the record has ${e[k].want}` + (e[k].why && row[k] ? ` (${e[k].why(row[k])})` : ""));
    }
    free.delete(hit);
  });
}

// ---------------------------------------------------------------- sub-checks
function rulesSub(g) {
  const rules = ruleList(g, THOROUGH ? 30 : 12);
  g.desc = JSON.stringify(rules);
  const paired = rules.filter((r) => { const [a, b] = r.split(" ==> "); return a !== b && rules.includes(`${b} ==> ${a}`); }).length;
  g.nontrivial = rules.length >= 2;
  if (paired > 0) g.label("reverses");
  if (paired > 0 && paired < rules.length) g.label("reverses and one-way rules");
  if (rules.length === 0) g.label("no rules");
  const p = new Page("rules.html", []);
  p.ctx.given = null;
  p.run("var given = " + JSON.stringify(rules));
  for (let i = 0; i < 2; i++) {
    const out = p.run("formatRules(given)");
    const w = wrongRules(lines(String(out)), rules);
    ensure(w === null, () => `formatted ${i ? "again " : ""}as ${JSON.stringify(out)}: ${w}`);
    ensure(JSON.stringify(p.run("given")) === JSON.stringify(rules), () => `formatting changed the list to ${JSON.stringify(p.run("given"))}`);
  }
}

function shareSub(g) {
  const can = g.small(0, 400), cannot = g.small(0, 400);
  const o = { can: Array(can).fill("x ==> y"), cannot: Array(cannot).fill("y ==> x") };
  const miss = g.chance(3);
  g.desc = miss ? "missing" : `${can} of ${can + cannot}`;
  g.nontrivial = !miss && can + cannot > 0;
  if (can > 0 && cannot > 0) g.label("between 0% and 100%");
  const p = sharePage;
  const out = String(p.run(miss ? "getDerivability(undefined)" : `getDerivability({can: Array(${can}).fill("x ==> y"), cannot: Array(${cannot}).fill("y ==> x"), time: 1})`));
  ensure(isShare(out, miss ? undefined : o), () => `shown ${out}`);
}
const sharePage = { run: (c) => (sharePage.p = sharePage.p || new Page("index.html", [])).run(c) };

function pagesSub(g) {
  const recs = records(g);
  g.desc = JSON.stringify(recs);
  g.nontrivial = recs.length > 0;
  const kept = JSON.stringify(recs);
  const of = (t) => recs.filter((r) => r.TYPE === t);
  const again = g.size(1, 2);
  const unchanged = (p, what) => ensure(p.data() === kept, () => `${what} changed the records`);

  let p = new Page("index.html", recs);
  for (let i = 0; i < again; i++) {
    p.load();
    unchanged(p, "index.html");
    for (const [id, b] of [["baseline_table", "oopsla"], ["herbie_table", "herbie"], ["halide_table", "halide"]]) {
      checkTable(`index.html ${b}`, p.html(id), of("baseline").filter((r) => r.baseline_name === b), expectBaseline);
    }
  }
  const links = [...p.html("detail").matchAll(/href\s*=\s*["']([^"']+)["']/g)].map((m) => m[1]);
  for (const r of of("baseline")) {
    g.label("baseline record");
    for (const name of ["rules.html", "derive_detail.html"]) {
      const l = links.find((x) => x.startsWith(name + "?") && new URLSearchParams(x.slice(name.length)).get("domain") === r.spec_name);
      ensure(l, () => `index.html has no link to ${name} of ${r.spec_name}`);
      const q = new Page(name, recs, l.slice(name.length));
      for (let i = 0; i < again; i++) {
        q.load();
        unchanged(q, name);
        ensure(text(q.html("domain_name")) === r.spec_name, () => `${l} is titled ${q.html("domain_name")}`);
        if (name === "rules.html") {
          const w = wrongRules(lines(q.html("all_rules")), r.rules);
          ensure(w === null, () => `${l} shows ${JSON.stringify(q.html("all_rules"))} of ${JSON.stringify(r.rules)}: ${w}`);
        } else {
          for (const d of ["lhs", "lhs_rhs"]) {
            const eb = r.derivability.enumo_derives_baseline[d], be = r.derivability.baseline_derives_enumo[d];
            if (!eb || !be) g.label("missing derivability");
            checkTable(`${l} ${d}`, q.html(`${d}_table`), [r], () => ({
              "Enumo->Baseline (derivable)": list(eb && eb.can), "Enumo->Baseline (not derivable)": list(eb && eb.cannot),
              "Baseline->Enumo (derivable)": list(be && be.can), "Baseline->Enumo (not derivable)": list(be && be.cannot),
            }));
          }
        }
      }
    }
  }
  p = new Page("bv.html", recs);
  if (of("bv").length) g.label("bv record");
  for (let i = 0; i < again; i++) {
    p.load();
    unchanged(p, "bv.html");
    checkTable("bv.html", p.html("container"), of("bv"), expectBv);
  }
  p = new Page("ff.html", recs);
  if (of("ff_phases").length) g.label("ff record");
  for (let i = 0; i < again; i++) {
    p.load();
    unchanged(p, "ff.html");
    checkTable("ff.html", p.html("container"), of("ff_phases"), expectFF);
  }
}

/// The body rows of a LaTeX table, as cells.
function texRows(src) {
  const ls = src.split("\n");
  const from = ls.findIndex((l) => l.includes("\\cline")), to = ls.findIndex((l) => l.includes("\\end{tabular}"));
  ensure(from >= 0 && to > from, () => `no table in ${src}`);
  return ls.slice(from + 1, to).filter((l) => l.trim() !== "").map((l) => l.trim().replace(/\\\\$/, "").split(/\s&\s/).map((c) => c.trim()));
}
const SPEC_TEX = { bv4_base: "bv4", rational_replicate: "rational", exponential: "Exponential", rational_best: "Rational", trig: "Trig" };
/// "x% (t), y% (u)" or dashes without times.
function texShares(c, d, timed) {
  const p = c.split(",").map((x) => x.trim());
  if (p.length !== 2) return false;
  return p.every((x, i) => {
    const o = i === 0 ? d.lhs : d.lhs_rhs;
    const m = x.match(/^(\S+)(?:\s+\(([^)]*)\))?$/);
    if (!m || !isShare(m[1], o)) return false;
    if (!timed) return m[2] === undefined;
    if (!o) return m[2] === undefined || m[2] === "-";
    return m[2] === undefined ? o.time === 0 : isTime(m[2], o.time);
  });
}
function texCountTime(c, n, t) {
  const m = c.match(/^(\d+) \(([^)]*)\)$/);
  return !!m && m[1] === String(n) && isTime(m[2], t);
}
const texNames = { "onGenerateClick('oopsla')": "oopsla", "onGenerateClick('herbie')": "herbie" };

function texSub(g) {
  const recs = [];
  const oop = g.shuffle(["bool", "bv4_base", "bv32", "rational_replicate", "custom1", "custom2"]);
  for (const s of oop) {
    if (s.startsWith("custom") && g.chance(50)) continue;
    recs.push(baselineRow(g, s, "oopsla", false, g.chance(15)));
  }
  for (const s of g.shuffle(["rational_replicate", "rational_best", "exponential", "trig"])) {
    if (g.chance(60)) recs.push(baselineRow(g, s, "herbie", false, s.startsWith("rational") || g.chance(10)));
  }
  for (const d of ["bv8", "bv16", "bv32", "bv64", "bv128"]) if (g.chance(50)) recs.push(bvRow(g, d));
  const k = g.small(0, 4);
  for (let i = 0; i < k; i++) recs.push(ffRow(g));
  g.shuffle(recs);
  g.desc = JSON.stringify(recs);
  g.nontrivial = true;
  const kept = JSON.stringify(recs);
  const show = (p, code) => {
    ensure(p.src.buttons.includes(code), `no button ${code}`);
    p.run(code);
    ensure(p.data() === kept, () => `${code} changed the records`);
    return texRows(p.html("latex"));
  };
  const judge = (what, rows, want, cells) => {
    ensure(rows.length === want.length, () => `${what}: ${want.length} records but ${rows.length} rows: ${JSON.stringify(rows)}`);
    const free = new Set(rows.keys());
    for (const [i, r] of want.entries()) {
      const e = cells(r);
      const bad = (row) => (row.length !== e.length ? -1 : e.findIndex((f, j) => !f(row[j])));
      const ok = (row) => row.length === e.length && bad(row) === -1;
      const hit = [i, ...free].find((x) => free.has(x) && ok(rows[x]));
      ensure(hit !== undefined, () => `${what}: no row for ${JSON.stringify(r)} in ${JSON.stringify(rows)}`);
      free.delete(hit);
    }
  };
  const load = g.chance(50);
  let p = new Page("index.html", recs);
  if (load) p.load();
  const order = g.shuffle(["oopsla", "herbie"]);
  for (const b of order) {
    const rows = show(p, `onGenerateClick('${b}')`);
    const mine = recs.filter((r) => r.TYPE === "baseline" && r.baseline_name === b);
    const want = b === "oopsla"
      ? ["bool", "bv4_base", "bv32", "rational_replicate"].map((s) => mine.find((r) => r.spec_name === s))
      : mine.filter((r) => r.spec_name !== "rational_replicate");
    judge(`LaTeX for ${b}`, rows, want, (r) => {
      const eb = r.derivability.enumo_derives_baseline, be = r.derivability.baseline_derives_enumo;
      return [
        (c) => c === (SPEC_TEX[r.spec_name] || r.spec_name), (c) => c === r.loc, (c) => texCountTime(c, r.rules.length, r.time),
        (c) => (c.match(/^(\d+)(?: \([\d.]+\))?$/) || [])[1] === String(eb.lhs.can.length + eb.lhs.cannot.length),
        (c) => texShares(c, eb, true), (c) => texShares(c, be, true),
      ];
    });
  }
  p = new Page("bv.html", recs);
  if (load) p.load();
  for (let i = 0; i < 2; i++) {
    const want = recs.filter((r) => r.TYPE === "bv").sort((a, b) => a.domain.slice(2) - b.domain.slice(2));
    judge("LaTeX for bv", show(p, "onGenerateClick('bv')"), want, (r) => [
      (c) => c === r.domain, (c) => texCountTime(c, r.direct_gen.rules.length, r.direct_gen.time),
      (c) => texCountTime(c, r.from_bv4.rules.length, r.from_bv4.time), (c) => texShares(c, r.derivability, false),
    ]);
  }
  p = new Page("ff.html", recs);
  if (load) p.load();
  const plain = (c) => c.replace(/\$\\mathcal\{([A-Z])\}\$/g, "$1");
  judge("LaTeX for ff", show(p, "onGenerateClick('ff')"), recs.filter((r) => r.TYPE === "ff_phases"), (r) => [
    (c) => plain(c) === r.phase1, (c) => plain(c) === r.phase2, (c) => plain(c) === r.phase3,
    (c) => isTime(c, r.time), (c) => c === String(r.rules.filter(trig).length),
  ]);
}

const SUBS = [
  { name: "rules", f: rulesSub, quick: 10000, thorough: 600000 },
  { name: "share", f: shareSub, quick: 20000, thorough: 400000 },
  { name: "pages", f: pagesSub, quick: 3000, thorough: 200000 },
  { name: "latex", f: texSub, quick: 3000, thorough: 200000 },
];
const RULE =
  "rules: lists of 0-12 (thorough 30) distinct rules over random terms, in random order, half with their reverse, sides shared so that chains and cycles occur; formatted twice, the shown lines must account for every rule exactly once and the list must stay as it was. share: parts of 0-400 rules; the percentage must be the rounded share. pages: 0-14 records of the three kinds, with missing derivability; every page is loaded as its HTML says (links followed from the index, once or twice), every cell is compared with its record and the records must be unchanged. latex: records for every button; the rows of each table are compared with their records. Non-trivial: at least two rules; a non-empty derivability; at least one record.";

// ---------------------------------------------------------------- running
function attempt(f, g) {
  try {
    f(g);
    return null;
  } catch (e) {
    if (e instanceof Discard) return { discard: true };
    if (e instanceof Fail) return { message: e.message };
    return { message: `exception: ${(e && e.message) || e}` };
  }
}
function shrink(f, start) {
  const t0 = Date.now();
  let best = start, last = null, evals = 0;
  const tryIt = (c) => {
    if (++evals > 4000 || Date.now() - t0 > 30000) return false;
    const g = new G(null, c);
    const r = attempt(f, g);
    if (!r || r.discard) return false;
    const smaller = g.rec.length < best.length || (g.rec.length === best.length && g.rec.some((x, i) => x !== best[i]) && g.rec.find((x, i) => x !== best[i]) < best[g.rec.findIndex((x, i) => x !== best[i])]);
    if (!smaller && last) return false;
    best = g.rec;
    last = { message: r.message, desc: g.desc };
    return true;
  };
  tryIt(start);
  for (;;) {
    const before = best.join();
    for (const size of [64, 32, 16, 8, 4, 3, 2, 1]) {
      for (let i = best.length - size; i >= 0; i--) {
        if (i + size > best.length) continue;
        const c = best.slice(0, i).concat(best.slice(i + size));
        if (!tryIt(c) && i > 0 && c[i - 1] > 0) {
          c[i - 1]--;
          tryIt(c);
        }
      }
    }
    for (let i = 0; i < best.length; i++) {
      if (best[i] === 0) continue;
      let c = best.slice();
      c[i] = 0;
      if (!tryIt(c)) {
        c = best.slice();
        c[i] = Math.floor(c[i] / 2);
        tryIt(c) || ((c = best.slice()), c[i]--, tryIt(c));
      }
    }
    if (best.join() === before) break;
  }
  return { choices: best, ...last };
}
const clip = (s, n) => (s.length <= n ? s : s.slice(0, n) + `…[${s.length} bytes]`);

function work(k, w, file) {
  const t0 = Date.now();
  const cap = (THOROUGH ? 700 : 240) * 1000;
  const out = { stats: {}, keys: [], samples: [], labels: {}, evals: 0, discards: 0, violation: null, capped: false };
  const keys = new Set();
  const ROUNDS = 64;
  outer: for (let r = 0; r < ROUNDS; r++) {
    for (const s of SUBS) {
      if (process.env.VERIF_SUB && process.env.VERIF_SUB !== s.name) continue;
      const total = Math.ceil((THOROUGH ? s.thorough : s.quick) * SCALE);
      for (let i = Math.floor((total * r) / ROUNDS); i < Math.floor((total * (r + 1)) / ROUNDS); i++) {
        if (i % w !== k) continue;
        if (Date.now() - t0 > cap) {
          out.capped = true;
          break outer;
        }
        const g = new G(rng(`${SEED}/C24/${s.name}/${i}`), null);
        const res = attempt(s.f, g);
        if (res && res.discard) {
          out.discards++;
          continue;
        }
        out.evals++;
        out.stats[s.name] = (out.stats[s.name] || 0) + 1;
        for (const l of g.labels) out.labels[`${s.name}: ${l}`] = (out.labels[`${s.name}: ${l}`] || 0) + 1;
        if (g.nontrivial) {
          const key = crypto.createHash("sha1").update(s.name + g.desc).digest("base64").slice(0, 12);
          if (!keys.has(key)) {
            keys.add(key);
            if (k === 0 && out.samples.filter((x) => x.startsWith(`[${s.name}]`)).length < 2) out.samples.push(clip(`[${s.name}] ${g.desc}`, 600));
          }
        }
        if (res) {
          const m = shrink(s.f, g.rec);
          out.violation = { property: "C24", sub: s.name, seed: SEED, index: i, choices: m.choices || g.rec, message: m.message || res.message, input: clip(m.desc || g.desc, 4000) };
          break outer;
        }
      }
    }
  }
  out.keys = [...keys];
  fs.writeFileSync(file, JSON.stringify(out));
}

async function main() {
  const args = process.argv.slice(2);
  if (args[0] === "--replay") {
    const r = JSON.parse(fs.readFileSync(args[1], "utf8"));
    const g = new G(null, r.choices);
    const res = attempt(SUBS.find((s) => s.name === r.sub).f, g);
    console.log(`input: ${g.desc}`);
    if (res && res.message) {
      console.log(res.message);
      console.log(`VIOLATION property=C24 replay=${args[1]}`);
      return 1;
    }
    console.log("the property holds on this input");
    return 0;
  }
  if (args[0] === "--worker") {
    work(Number(args[1]), Number(args[2]), args[3]);
    return 0;
  }
  const t0 = Date.now();
  const dir = fs.mkdtempSync(path.join(require("os").tmpdir(), "c24-"));
  const w = Math.max(1, Math.min(8, require("os").cpus().length));
  const outs = await Promise.all([...Array(w).keys()].map((k) => new Promise((done) => {
    const file = path.join(dir, `${k}.json`);
    const c = require("child_process").spawn(process.execPath, [__filename, "--worker", k, w, file].map(String), { stdio: "inherit" });
    c.on("close", () => done(fs.existsSync(file) ? JSON.parse(fs.readFileSync(file, "utf8")) : null));
  })));
  fs.rmSync(dir, { recursive: true, force: true });
  if (outs.some((o) => o === null)) {
    console.log("ERROR: a worker ended without a result; no verdict");
    return 2;
  }
  const sum = (f) => outs.reduce((n, o) => n + f(o), 0);
  const merge = (f) => outs.reduce((m, o) => { for (const [k, v] of Object.entries(f(o))) m[k] = (m[k] || 0) + v; return m; }, {});
  const evals = sum((o) => o.evals), discards = sum((o) => o.discards), stats = merge((o) => o.stats), labels = merge((o) => o.labels);
  const keys = new Set(outs.flatMap((o) => o.keys)), samples = outs.flatMap((o) => o.samples), capped = outs.some((o) => o.capped);
  const violation = outs.map((o) => o.violation).filter((v) => v).sort((a, b) => a.index - b.index)[0] || null;
  const evidence = {
    property: "C24", tier: THOROUGH ? "thorough" : "quick", seed: SEED, level: "exploration",
    coverage: { evaluations: evals, distinct_nontrivial: keys.size, rule: RULE, samples, discarded: discards, per_subcheck: stats, labels, stopped_by_time: capped },
    assumptions: ["the document is a stand-in: elements named in the page's HTML, with innerHTML as text", "rule lists hold no rule twice (rulesets are keyed by rule text)", "records have the fields logger.rs writes", "an empty derivability (0 of 0) is not judged"],
    wall_s: (Date.now() - t0) / 1000, violations: violation ? 1 : 0,
  };
  fs.mkdirSync(path.join(VERIF, "evidence", "replays"), { recursive: true });
  fs.writeFileSync(path.join(VERIF, "evidence", "C24.json"), JSON.stringify(evidence, null, 1));
  if (violation) {
    const file = path.join(VERIF, "evidence", "replays", `C24-${violation.sub}-${violation.index}.json`);
    fs.writeFileSync(file, JSON.stringify(violation, null, 1));
    console.log(`input: ${violation.input}`);
    console.log(violation.message);
    console.log(`VIOLATION property=C24 replay=${file}`);
    return 1;
  }
  console.log(`OK C24: ${evals} cases, ${keys.size} distinct non-trivial, ${discards} discarded, ${((Date.now() - t0) / 1000).toFixed(1)}s`);
  return 0;
}
main().then((c) => (process.exitCode = c), (e) => { console.log(e); process.exitCode = 2; });
