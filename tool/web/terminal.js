// Abstract interpretation of the web terminal: the sources under web/src are parsed with the TypeScript compiler and
// their meaning is followed over unknown lines, characters and replies. Nothing of them is run.
//
// usage: node terminal.js SRCDIR    prints one JSON object per line: {key, ok, file, line, text}
'use strict';
const ts = require('typescript');
const fs = require('fs');
const path = require('path');
const dir = process.argv[process.argv.length - 1];

class Undecided extends Error { constructor(m, n) { super(m); this.node = n; } }
class Thrown { constructor(v) { this.v = v; } }

// ---- values
const S = s => ({t: 'str', s}), N = n => ({t: 'num', n}), B = b => ({t: 'bool', b});
const U = {t: 'undef'}, NULL = {t: 'null'};
const sym = (name, kind) => ({t: 'sym', name, kind});
const app = (f, ...args) => ({t: 'app', f, args});
const native = (name, call) => ({t: 'native', name, call});
let nextId = 0;
function key(v) {
    switch (v.t) {
    case 'str': return JSON.stringify(v.s);
    case 'num': return String(v.n);
    case 'bool': return String(v.b);
    case 'undef': return 'undefined';
    case 'null': return 'null';
    case 'sym': return v.name;
    case 'cat': return 'cat(' + v.parts.map(key).join(',') + ')';
    case 'app': return v.f + '(' + v.args.map(key).join(',') + ')';
    default: return '#' + v.id;
    }
}
function cat(...vs) {
    const out = [];
    for (const v of vs) for (const p of v.t === 'cat' ? v.parts : [v]) {
        const q = p.t === 'num' || p.t === 'bool' ? S(key(p)) : p;
        if (q.t === 'str' && q.s === '') continue;
        if (q.t === 'str' && out.length && out[out.length - 1].t === 'str') out[out.length - 1] = S(out[out.length - 1].s + q.s);
        else out.push(q);
    }
    if (out.length === 0) return S('');
    return out.length === 1 ? out[0] : {t: 'cat', parts: out};
}
function isString(v) {
    return v.t === 'str' || v.t === 'cat' || v.t === 'sym' && (v.kind === 'string' || v.kind === 'char') ||
        v.t === 'app' && ['stringify', 'dropLast', 'trim', 'String', 'message', 'replace'].includes(v.f);
}
function mentions(v, name) {
    if (v.t === 'sym') return v.name === name;
    if (v.t === 'cat') return v.parts.some(p => mentions(p, name));
    if (v.t === 'app') return v.args.some(p => mentions(p, name));
    if (v.t === 'obj') return [...v.props.values()].some(p => mentions(p, name));
    return false;
}

// ---- the sources
const files = fs.readdirSync(dir).filter(f => /\.tsx?$/.test(f) && !f.endsWith('.d.ts')).sort();
const sources = new Map();
for (const f of files) {
    const text = fs.readFileSync(path.join(dir, f), 'utf8');
    const sf = ts.createSourceFile(f, text, ts.ScriptTarget.ES2020, true, f.endsWith('x') ? ts.ScriptKind.TSX : ts.ScriptKind.TS);
    if (sf.parseDiagnostics && sf.parseDiagnostics.length) {
        report('sources', false, sf, 'web/src/' + f + ' does not parse');
    }
    sources.set(f, sf);
}
function where(n) {
    if (!n) return {file: 'web/src', line: 0};
    const sf = n.getSourceFile();
    return {file: 'web/src/' + sf.fileName, line: sf.getLineAndCharacterOfPosition(n.getStart ? n.getStart() : 0).line + 1};
}
function report(k, ok, node, text) {
    console.log(JSON.stringify({key: k, ok, ...where(node), text}));
}

// ---- one way through
class World {
    constructor(script) {
        this.script = script; this.at = 0; this.memo = new Map(); this.taken = [];
        this.micro = []; this.macro = []; this.heap = []; this.modules = new Map();
        this.trace = []; this.handlers = []; this.effects = []; this.fuel = 20000; this.sends = 0; this.round = 0; this.ready = [];
        this.functions = new Set();
    }
    choose(k, n = 2) {
        if (this.memo.has(k)) return this.memo.get(k);
        const c = this.at < this.script.length ? this.script[this.at] : 0;
        this.at++;
        this.taken.push([c, n, k]);
        this.memo.set(k, c);
        return c;
    }
    obj(cls, props = {}) {
        const o = {t: 'obj', cls, id: ++nextId, props: new Map(Object.entries(props))};
        this.heap.push(o.props);
        return o;
    }
    scope(parent) {
        const s = {vars: new Map(), parent};
        this.heap.push(s.vars);
        return s;
    }
    promise() { const p = {t: 'promise', id: ++nextId, state: 'pending', cbs: []}; return p; }
    settle(p, state, v) {
        if (p.state !== 'pending' || p.locked) return;
        p.state = state; p.v = v;
        for (const cb of p.cbs) this.micro.push(() => cb(state, v));
        p.cbs = [];
    }
    resolve(p, v) {
        if (p.state !== 'pending' || p.locked) return;
        if (v.t === 'promise') {
            p.locked = true;
            this.micro.push(() => this.when(v, (s, x) => { p.locked = false; this.settle(p, s, x); }));
            return;
        }
        this.settle(p, 'ok', v);
    }
    when(p, cb) {
        if (p.state === 'pending') p.cbs.push(cb);
        else this.micro.push(() => cb(p.state, p.v));
    }
    drain() {
        for (;;) {
            while (this.micro.length) this.micro.shift()();
            if (!this.macro.length) return;
            this.macro.shift()();
        }
    }
    thenable(p, onOk, onErr) {
        const q = this.promise();
        const fn = f => f && f.t !== 'undef' && f.t !== 'null' ? f : null;
        this.when(p, (s, v) => {
            const f = s === 'ok' ? fn(onOk) : fn(onErr);
            if (!f) { this.settle(q, s, v); return; }
            try { this.resolve(q, this.call(f, [v])); } catch (e) {
                if (!(e instanceof Thrown)) throw e;
                this.settle(q, 'err', e.v);
            }
        });
        return q;
    }
    finally(p, f) {
        const q = this.promise();
        this.when(p, (s, v) => {
            try {
                const r = this.call(f, []);
                if (r.t === 'promise') this.when(r, (s2, v2) => s2 === 'err' ? this.settle(q, s2, v2) : this.settle(q, s, v));
                else this.settle(q, s, v);
            } catch (e) {
                if (!(e instanceof Thrown)) throw e;
                this.settle(q, 'err', e.v);
            }
        });
        return q;
    }
    // truth of a condition
    truth(v, node) {
        switch (v.t) {
        case 'str': return v.s !== '';
        case 'num': return v.n !== 0 && !Number.isNaN(v.n);
        case 'bool': return v.b;
        case 'undef': case 'null': return false;
        case 'cat': if (v.parts.some(p => p.t === 'str' || p.kind === 'char')) return true; break;
        case 'sym': if (v.kind === 'char' || v.kind === 'object') return true; break;
        case 'app': break;
        default: return true;
        }
        if (v.t === 'app' && v.f === 'length') return this.truth(v.args[0], node);
        if (v.t === 'app' && v.f === 'cmp') return this.choose('cmp ' + v.op + key(v)) === 0;
        return this.choose('true ' + key(v)) === 0;
    }
    equal(a, b, node) {
        const ca = ['str', 'num', 'bool', 'undef', 'null'].includes(a.t), cb = ['str', 'num', 'bool', 'undef', 'null'].includes(b.t);
        if (ca && cb) return a.t === b.t && key(a) === key(b);
        if (key(a) === key(b)) return true;
        if (ca) return this.equal(b, a, node);
        if (cb) {
            if (isString(a) && b.t !== 'str') return false;
            if (isString(a) && b.s === '') return !this.truth(a, node);
            if (a.t === 'sym' && a.kind === 'char') {
                if (b.s.length !== 1 || b.s < ' ' || b.s === '\u007f') return false;
            }
            if (a.t === 'cat' && a.parts.some(p => p.t === 'str' && !b.s.includes(p.s))) return false;
            if (a.t === 'app' && a.f === 'length' && b.t === 'num' && b.n === 0) return !this.truth(a.args[0], node);
            if (a.t === 'app' && a.f === 'length' && a.args[0].kind === 'char' && b.t === 'num') return b.n === 1;
            if (a.t === 'app' && a.f === 'code' && b.t === 'num' && (b.n < 32 || b.n === 127)) return false;
            if (['obj', 'fn', 'native', 'promise'].includes(a.t)) return false;
            if (a.t === 'sym' && a.kind === 'object') return false;
        }
        if (['obj', 'fn', 'native', 'promise'].includes(a.t) && ['obj', 'fn', 'native', 'promise'].includes(b.t)) return false;
        return this.choose('eq ' + [key(a), key(b)].sort().join(' ')) === 0;
    }
    compare(op, a, b, node) {
        if (a.t === 'num' && b.t === 'num') return op === '<' ? a.n < b.n : op === '<=' ? a.n <= b.n : op === '>' ? a.n > b.n : a.n >= b.n;
        if (a.t === 'str' && b.t === 'str') return op === '<' ? a.s < b.s : op === '<=' ? a.s <= b.s : op === '>' ? a.s > b.s : a.s >= b.s;
        const flip = {'<': '>', '<=': '>=', '>': '<', '>=': '<='};
        if (a.t === 'num' || a.t === 'str') return this.compare(flip[op], b, a, node);
        if (a.t === 'app' && a.f === 'length' && b.t === 'num') {
            if (a.args[0].kind === 'char') return this.compare(op, N(1), b, node);
            if (op === '>' && b.n === 0 || op === '>=' && b.n === 1) return this.truth(a.args[0], node);
            if (op === '<' && b.n === 1 || op === '<=' && b.n === 0) return !this.truth(a.args[0], node);
            if (op === '>=' && b.n <= 0 || op === '>' && b.n < 0) return true;
        }
        if (a.t === 'app' && a.f === 'code' && b.t === 'num' && b.n <= 32) {
            if (op === '>=' || op === '>' && b.n < 32) return true;
            if (op === '<' || op === '<=' && b.n < 32) return false;
        }
        if (a.t === 'sym' && a.kind === 'char' && b.t === 'str' && b.s <= ' ') {
            if (op === '>=' || op === '>' && b.s < ' ') return true;
            if (op === '<' || op === '<=' && b.s < ' ') return false;
        }
        if (op === '<' || op === '<=') return !this.compare(op === '<' ? '>=' : '>', a, b, node);
        return this.choose('cmp ' + op + key(a) + ' ' + key(b)) === 0;
    }

    // ---- modules
    module(f) {
        if (this.modules.has(f)) return this.modules.get(f);
        const sf = sources.get(f);
        const sc = this.scope(null);
        sc.exports = new Map();
        this.modules.set(f, sc);
        for (const st of sf.statements) {
            if (ts.isImportDeclaration(st)) this.import(st, sc);
        }
        this.hoist(sf.statements, sc);
        for (const st of sf.statements) {
            if (ts.isImportDeclaration(st) || f === 'main.tsx') continue;
            this.run(this.stmt(st, sc));
        }
        return sc;
    }
    import(st, sc) {
        const from = st.moduleSpecifier.text;
        const cl = st.importClause;
        if (!cl) return;
        let get;
        if (from.startsWith('.')) {
            const base = path.normalize(from);
            const f = [base, base + '.ts', base + '.tsx'].find(x => sources.has(x));
            if (!f) { get = name => sym('import ' + from + '.' + name, 'object'); }
            else {
                const m = this.module(f);
                get = name => ({t: 'import', scope: m, name});
            }
        } else get = name => this.library(from, name, st);
        if (cl.name) sc.vars.set(cl.name.text, get('default'));
        const nb = cl.namedBindings;
        if (nb && ts.isNamedImports(nb)) for (const e of nb.elements) sc.vars.set(e.name.text, get((e.propertyName || e.name).text));
        if (nb && ts.isNamespaceImport(nb)) sc.vars.set(nb.name.text, this.namespace(get));
    }
    namespace(get) {
        const o = this.obj('namespace');
        o.get = get;
        return o;
    }
    library(from, name, node) {
        if (from === 'react') {
            if (name === 'default') return this.namespace(n => this.library('react', n, node));
            switch (name) {
            case 'useRef': return native(name, a => this.obj('ref', {current: a[0] || U}));
            case 'useEffect': case 'useLayoutEffect': return native(name, a => { this.effects.push(a); return U; });
            case 'useCallback': case 'memo': return native(name, a => a[0]);
            case 'useMemo': return native(name, a => this.call(a[0], []));
            }
            return native(name, () => { throw new Undecided('what React.' + name + ' does is not known', node); });
        }
        if (name === 'Terminal' || from.includes('xterm') && name === 'default') return {t: 'class', id: ++nextId, make: () => this.terminal()};
        return sym('import ' + from + '.' + name, 'object');
    }
    terminal() {
        const o = this.obj('terminal');
        const write = end => native('write', a => {
            this.trace.push(['write', end ? cat(a[0] || S(''), S('\r\n')) : a[0] || S('')]);
            if (a[1] && a[1].t === 'fn') this.macro.push(() => this.call(a[1], []));
            return U;
        });
        o.props.set('write', write(false));
        o.props.set('writeln', write(true));
        o.props.set('onData', native('onData', a => { this.handlers.push(a[0]); return this.obj('disposable'); }));
        o.other = name => {
            if (['onKey', 'onBinary', 'attachCustomKeyEventHandler', 'reset', 'clear', 'input', 'paste', 'onLineFeed'].includes(name)) throw new Undecided('what the terminal does with ' + name + ' is not known');
            return native(name, () => U);
        };
        return o;
    }
    global(name, node) {
        switch (name) {
        case 'undefined': return U;
        case 'NaN': return N(NaN);
        case 'topolithSend':
            if (!this.loaded()) throw new Thrown(sym('not loaded', 'object'));
            return this.engine();
        case 'JSON': return this.obj('JSON', {
            parse: native('parse', a => {
                if (this.choose('parses ' + key(a[0])) === 1) throw new Thrown(sym('syntax error', 'object'));
                return app('parse', a[0]);
            }),
            stringify: native('stringify', a => app('stringify', a[0] || U)),
        });
        case 'console': { const o = this.obj('console'); o.other = () => native('log', () => U); return o; }
        case 'String': return native('String', a => isString(a[0]) ? a[0] : app('String', a[0]));
        case 'Error': case 'TypeError': case 'RangeError':
            return {t: 'class', id: ++nextId, make: a => this.obj('error', {message: a[0] || S('')})};
        case 'Promise': {
            const P = this.obj('Promise', {
                resolve: native('resolve', a => { if (a[0] && a[0].t === 'promise') return a[0]; const p = this.promise(); this.settle(p, 'ok', a[0] || U); return p; }),
                reject: native('reject', a => { const p = this.promise(); this.settle(p, 'err', a[0] || U); return p; }),
            });
            P.make = a => {
                const p = this.promise();
                try {
                    this.call(a[0], [native('resolve', b => { this.resolve(p, b[0] || U); return U; }), native('reject', b => { this.settle(p, 'err', b[0] || U); return U; })]);
                } catch (e) { if (!(e instanceof Thrown)) throw e; this.settle(p, 'err', e.v); }
                return p;
            };
            return P;
        }
        case 'setTimeout': case 'requestAnimationFrame': return native(name, a => { this.macro.push(() => { try { this.call(a[0], []); } catch (e) { if (!(e instanceof Thrown)) throw e; } }); return N(1); });
        case 'queueMicrotask': return native(name, a => { this.micro.push(() => { try { this.call(a[0], []); } catch (e) { if (!(e instanceof Thrown)) throw e; } }); return U; });
        case 'clearTimeout': return native(name, () => { throw new Undecided('timers that are cancelled are not followed', node); });
        case 'window': case 'globalThis': case 'self': {
            const o = this.obj('global');
            o.get = n => n === 'topolithSend' && !this.loaded() ? U : this.global(n, node);
            return o;
        }
        }
        return sym('global ' + name, 'object');
    }
    // the engine is loaded at some time, or never
    loaded() {
        if (this.ready[this.round] === undefined) {
            this.ready[this.round] = this.ready.slice(0, this.round).includes(true) || this.choose('the engine is loaded at line ' + this.round) === 0;
        }
        return this.ready[this.round];
    }
    engine() {
        return native('topolithSend', a => {
            this.sends++;
            this.trace.push(['send', a.length === 1 ? a[0] : app('arguments', ...a)]);
            if (this.choose('the engine answers ' + this.sends) === 1) throw new Thrown(sym('engine error', 'object'));
            return sym('reply ' + this.sends, 'string');
        });
    }

    // ---- functions
    call(f, args, self) {
        if (f.t === 'import') f = this.deref(f);
        if (f.t === 'native') return f.call(args, self);
        if (f.t === 'fn') {
            if (--this.fuel < 0) throw new Undecided('too much to follow', f.node);
            this.functions.add(f.node);
            const sc = this.scope(f.env);
            const body = this.body(f, args, sc);
            if (!f.async) return this.run(body);
            const p = this.promise();
            const step = (how, v) => {
                let r;
                try { r = how === 'err' ? body.throw(new Thrown(v)) : body.next(v); } catch (e) {
                    if (!(e instanceof Thrown)) throw e;
                    this.settle(p, 'err', e.v);
                    return;
                }
                if (r.done) { this.resolve(p, r.value); return; }
                const w = r.value;
                if (w.t === 'promise') this.when(w, step);
                else this.micro.push(() => step('ok', w));
            };
            step('ok', U);
            return p;
        }
        if (f.t === 'undef' || f.t === 'null') throw new Thrown(this.obj('error'));
        if (f.t === 'sym' && /^(global|import|new) /.test(f.name) || f.t === 'app' && opaque(f)) {
            if (this.handlers.length && args.some(a => a.t === 'fn')) throw new Undecided('when the function given to ' + key(f) + ' runs is not known');
            return app('call', f, ...args.filter(a => a.t !== 'fn'));
        }
        throw new Undecided('what is called is not known: ' + key(f));
    }
    *body(f, args, sc) {
        let i = 0;
        for (const p of f.node.parameters) {
            if (p.dotDotDotToken) throw new Undecided('a variable number of parameters', p);
            let v = args[i++] || U;
            if (v.t === 'undef' && p.initializer) v = yield* this.expr(p.initializer, sc);
            yield* this.bind(p.name, v, sc);
        }
        if (!ts.isBlock(f.node.body)) return yield* this.expr(f.node.body, sc);
        const c = yield* this.block(f.node.body.statements, sc);
        return c && c.c === 'return' ? c.v : U;
    }
    run(gen) {
        const r = gen.next();
        if (!r.done) throw new Undecided('waiting outside an async function');
        return r.value;
    }
    *bind(name, v, sc) {
        if (ts.isIdentifier(name)) { sc.vars.set(name.text, v); return; }
        if (ts.isObjectBindingPattern(name)) {
            for (const e of name.elements) {
                if (e.dotDotDotToken || e.propertyName && !ts.isIdentifier(e.propertyName)) throw new Undecided('this pattern', e);
                let x = this.prop(v, (e.propertyName || e.name).text, e);
                if (x.t === 'undef' && e.initializer) x = yield* this.expr(e.initializer, sc);
                yield* this.bind(e.name, x, sc);
            }
            return;
        }
        throw new Undecided('this pattern', name);
    }
    deref(v) {
        while (v.t === 'import') {
            if (!v.scope.vars.has(v.name)) throw new Undecided('the import ' + v.name + ' is not known');
            v = v.scope.vars.get(v.name);
        }
        return v;
    }
    find(sc, name) {
        for (let s = sc; s; s = s.parent) if (s.vars.has(name)) return s;
        return null;
    }
    lookup(n, sc) {
        const s = this.find(sc, n.text);
        return s ? this.deref(s.vars.get(n.text)) : this.global(n.text, n);
    }
    closure(node, sc) {
        if (node.asteriskToken) throw new Undecided('a generator', node);
        return {t: 'fn', id: ++nextId, node, env: sc, async: !!(node.modifiers && node.modifiers.some(m => m.kind === ts.SyntaxKind.AsyncKeyword))};
    }

    // ---- statements
    hoist(sts, sc) {
        for (const st of sts) if (ts.isFunctionDeclaration(st) && st.body && st.name) sc.vars.set(st.name.text, this.closure(st, sc));
    }
    *block(sts, sc) {
        this.hoist(sts, sc);
        for (const st of sts) {
            const c = yield* this.stmt(st, sc);
            if (c) return c;
        }
    }
    *stmt(n, sc) {
        if (--this.fuel < 0) throw new Undecided('too much to follow', n);
        if (ts.isVariableStatement(n)) {
            if (n.modifiers && n.modifiers.some(m => m.kind === ts.SyntaxKind.DeclareKeyword)) return;
            yield* this.decls(n.declarationList, sc);
            return;
        }
        if (ts.isExpressionStatement(n)) { yield* this.expr(n.expression, sc); return; }
        if (ts.isFunctionDeclaration(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isEmptyStatement(n) ||
            ts.isImportDeclaration(n) || ts.isExportDeclaration(n) || ts.isExportAssignment(n) || ts.isModuleDeclaration(n) || n.kind === ts.SyntaxKind.DebuggerStatement) return;
        if (ts.isBlock(n)) return yield* this.block(n.statements, this.scope(sc));
        if (ts.isReturnStatement(n)) return {c: 'return', v: n.expression ? yield* this.expr(n.expression, sc) : U};
        if (ts.isIfStatement(n)) {
            if (this.truth(yield* this.expr(n.expression, sc), n)) return yield* this.stmt(n.thenStatement, sc);
            if (n.elseStatement) return yield* this.stmt(n.elseStatement, sc);
            return;
        }
        if (ts.isThrowStatement(n)) throw new Thrown(yield* this.expr(n.expression, sc));
        if (ts.isBreakStatement(n) || ts.isContinueStatement(n)) {
            if (n.label) throw new Undecided('a label', n);
            return {c: ts.isBreakStatement(n) ? 'break' : 'continue'};
        }
        if (ts.isTryStatement(n)) {
            let c, err;
            try { c = yield* this.block(n.tryBlock.statements, this.scope(sc)); } catch (e) {
                if (!(e instanceof Thrown)) throw e;
                if (n.catchClause) {
                    const s2 = this.scope(sc);
                    try {
                        if (n.catchClause.variableDeclaration) yield* this.bind(n.catchClause.variableDeclaration.name, e.v, s2);
                        c = yield* this.block(n.catchClause.block.statements, s2);
                    } catch (e2) {
                        if (!(e2 instanceof Thrown)) throw e2;
                        err = e2;
                    }
                } else err = e;
            }
            if (n.finallyBlock) {
                const c2 = yield* this.block(n.finallyBlock.statements, this.scope(sc));
                if (c2) return c2;
            }
            if (err) throw err;
            return c;
        }
        if (ts.isSwitchStatement(n)) {
            const v = yield* this.expr(n.expression, sc);
            const s2 = this.scope(sc);
            let from = -1;
            const cls = n.caseBlock.clauses;
            for (let i = 0; i < cls.length && from < 0; i++) if (ts.isCaseClause(cls[i]) && this.equal(v, yield* this.expr(cls[i].expression, s2), n)) from = i;
            if (from < 0) from = cls.findIndex(ts.isDefaultClause);
            if (from < 0) return;
            for (let i = from; i < cls.length; i++) {
                const c = yield* this.block(cls[i].statements, s2);
                if (c && c.c === 'break') return;
                if (c) return c;
            }
            return;
        }
        if (ts.isForOfStatement(n)) {
            const v = yield* this.expr(n.expression, sc);
            let items;
            if (v.t === 'str') items = [...v.s].map(S);
            else if (v.t === 'sym' && v.kind === 'char') items = [v];
            else if (v.t === 'arr') items = v.items;
            else throw new Undecided('a loop over something unknown', n);
            for (const x of items) {
                const s2 = this.scope(sc);
                if (!ts.isVariableDeclarationList(n.initializer)) throw new Undecided('this loop', n);
                yield* this.bind(n.initializer.declarations[0].name, x, s2);
                const c = yield* this.stmt(n.statement, s2);
                if (c && c.c === 'break') break;
                if (c && c.c === 'return') return c;
            }
            return;
        }
        if (ts.isDoStatement(n)) {
            for (let i = 0; ; i++) {
                if (i > 100) throw new Undecided('a loop that does not end', n);
                const c = yield* this.stmt(n.statement, this.scope(sc));
                if (c && c.c === 'break') return;
                if (c && c.c === 'return') return c;
                if (!this.truth(yield* this.expr(n.expression, sc), n)) return;
            }
        }
        if (ts.isWhileStatement(n) || ts.isForStatement(n)) {
            const s2 = this.scope(sc);
            if (ts.isForStatement(n) && n.initializer) {
                if (ts.isVariableDeclarationList(n.initializer)) yield* this.decls(n.initializer, s2);
                else yield* this.expr(n.initializer, s2);
            }
            for (let i = 0; ; i++) {
                if (i > 100) throw new Undecided('a loop that does not end', n);
                const cond = ts.isWhileStatement(n) ? n.expression : n.condition;
                if (cond && !this.truth(yield* this.expr(cond, s2), n)) return;
                const c = yield* this.stmt(n.statement, this.scope(s2));
                if (c && c.c === 'break') return;
                if (c && c.c === 'return') return c;
                if (ts.isForStatement(n) && n.incrementor) yield* this.expr(n.incrementor, s2);
            }
        }
        throw new Undecided('a statement of this kind (' + ts.SyntaxKind[n.kind] + ')', n);
    }
    *decls(l, sc) {
        for (const d of l.declarations) yield* this.bind(d.name, d.initializer ? yield* this.expr(d.initializer, sc) : U, sc);
    }

    // ---- expressions
    *expr(n, sc) {
        if (--this.fuel < 0) throw new Undecided('too much to follow', n);
        const K = ts.SyntaxKind;
        if (ts.isParenthesizedExpression(n) || ts.isAsExpression(n) || ts.isNonNullExpression(n) || ts.isTypeAssertionExpression && ts.isTypeAssertionExpression(n) || ts.isSatisfiesExpression && ts.isSatisfiesExpression(n)) return yield* this.expr(n.expression, sc);
        if (ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) return S(n.text);
        if (ts.isNumericLiteral(n)) return N(Number(n.text));
        if (ts.isRegularExpressionLiteral(n)) return sym('regexp ' + n.text, 'object');
        if (n.kind === K.TrueKeyword) return B(true);
        if (n.kind === K.FalseKeyword) return B(false);
        if (n.kind === K.NullKeyword) return NULL;
        if (ts.isIdentifier(n)) return this.lookup(n, sc);
        if (ts.isTemplateExpression(n)) {
            const out = [S(n.head.text)];
            for (const s of n.templateSpans) out.push(yield* this.expr(s.expression, sc), S(s.literal.text));
            return cat(...out);
        }
        if (ts.isArrowFunction(n) || ts.isFunctionExpression(n)) return this.closure(n, sc);
        if (ts.isVoidExpression(n)) { yield* this.expr(n.expression, sc); return U; }
        if (ts.isAwaitExpression(n)) return yield (yield* this.expr(n.expression, sc));
        if (ts.isTypeOfExpression(n)) {
            if (ts.isIdentifier(n.expression) && !this.find(sc, n.expression.text) && n.expression.text === 'topolithSend') return S(this.loaded() ? 'function' : 'undefined');
            const v = yield* this.expr(n.expression, sc);
            if (isString(v)) return S('string');
            if (v.t === 'fn' || v.t === 'native') return S('function');
            if (v.t === 'undef') return S('undefined');
            if (v.t === 'num') return S('number');
            if (v.t === 'bool') return S('boolean');
            if (v.t === 'obj' || v.t === 'null' || v.t === 'promise') return S('object');
            return app('typeof', v);
        }
        if (ts.isConditionalExpression(n)) return yield* this.expr(this.truth(yield* this.expr(n.condition, sc), n) ? n.whenTrue : n.whenFalse, sc);
        if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) return B(!this.truth(yield* this.expr(n.operand, sc), n));
        if (ts.isPrefixUnaryExpression(n) && n.operator === K.MinusToken) {
            const v = yield* this.expr(n.operand, sc);
            return v.t === 'num' ? N(-v.n) : app('-', v);
        }
        if ((ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n)) && (n.operator === K.PlusPlusToken || n.operator === K.MinusMinusToken)) {
            const v = yield* this.expr(n.operand, sc);
            const w = this.add(v, N(n.operator === K.PlusPlusToken ? 1 : -1));
            yield* this.assign(n.operand, w, sc);
            return ts.isPrefixUnaryExpression(n) ? w : v;
        }
        if (ts.isObjectLiteralExpression(n)) {
            const o = this.obj('literal');
            for (const p of n.properties) {
                if (ts.isPropertyAssignment(p) && (ts.isIdentifier(p.name) || ts.isStringLiteral(p.name))) o.props.set(p.name.text, yield* this.expr(p.initializer, sc));
                else if (ts.isShorthandPropertyAssignment(p)) o.props.set(p.name.text, this.lookup(p.name, sc));
                else if (ts.isMethodDeclaration(p) && ts.isIdentifier(p.name)) o.props.set(p.name.text, this.closure(p, sc));
                else throw new Undecided('this object', p);
            }
            return o;
        }
        if (ts.isArrayLiteralExpression(n)) {
            const items = [];
            for (const e of n.elements) items.push(yield* this.expr(e, sc));
            return {t: 'arr', id: ++nextId, items};
        }
        if (ts.isJsxElement(n) || ts.isJsxSelfClosingElement(n) || ts.isJsxFragment(n)) return this.obj('jsx');
        if (ts.isPropertyAccessExpression(n)) {
            const o = yield* this.expr(n.expression, sc);
            if (n.questionDotToken && (o.t === 'undef' || o.t === 'null')) return U;
            return this.prop(o, n.name.text, n);
        }
        if (ts.isElementAccessExpression(n)) {
            const o = yield* this.expr(n.expression, sc), i = yield* this.expr(n.argumentExpression, sc);
            if (i.t === 'str') return this.prop(o, i.s, n);
            if (o.t === 'sym' && o.kind === 'char' && i.t === 'num' && i.n === 0) return o;
            if (o.t === 'str' && i.t === 'num') return i.n < o.s.length ? S(o.s[i.n]) : U;
            return app('at', o, i);
        }
        if (ts.isNewExpression(n)) {
            const c = yield* this.expr(n.expression, sc);
            const args = [];
            for (const a of n.arguments || []) args.push(yield* this.expr(a, sc));
            if (c.make) return c.make(args);
            if (c.t === 'sym') return sym('new ' + c.name, 'object');
            throw new Undecided('what is made is not known', n);
        }
        if (ts.isCallExpression(n)) {
            let self, f;
            const e = n.expression;
            if (ts.isPropertyAccessExpression(e)) {
                self = yield* this.expr(e.expression, sc);
                if (self.t === 'undef' || self.t === 'null') {
                    // the rest of an optional chain is skipped
                    if (optional(e)) return U;
                    throw new Thrown(this.obj('error'));
                }
                f = this.prop(self, e.name.text, e);
            } else f = yield* this.expr(e, sc);
            if (n.questionDotToken && (f.t === 'undef' || f.t === 'null')) return U;
            const args = [];
            for (const a of n.arguments) args.push(yield* this.expr(a, sc));
            try { return this.call(f, args, self); } catch (x) {
                if (x instanceof Undecided && !x.node) x.node = n;
                throw x;
            }
        }
        if (ts.isBinaryExpression(n)) {
            const op = n.operatorToken.kind;
            switch (op) {
            case K.EqualsToken: { const v = yield* this.expr(n.right, sc); yield* this.assign(n.left, v, sc); return v; }
            case K.PlusEqualsToken: {
                const a = yield* this.expr(n.left, sc);
                const v = this.add(a, yield* this.expr(n.right, sc));
                yield* this.assign(n.left, v, sc);
                return v;
            }
            case K.AmpersandAmpersandToken: { const a = yield* this.expr(n.left, sc); return this.truth(a, n) ? yield* this.expr(n.right, sc) : a; }
            case K.BarBarToken: { const a = yield* this.expr(n.left, sc); return this.truth(a, n) ? a : yield* this.expr(n.right, sc); }
            case K.QuestionQuestionToken: {
                const a = yield* this.expr(n.left, sc);
                const none = a.t === 'undef' || a.t === 'null' || a.t === 'app' && a.f === 'parse' && this.choose('none ' + key(a)) === 1;
                return none ? yield* this.expr(n.right, sc) : a;
            }
            case K.CommaToken: yield* this.expr(n.left, sc); return yield* this.expr(n.right, sc);
            }
            const a = yield* this.expr(n.left, sc), b = yield* this.expr(n.right, sc);
            switch (op) {
            case K.PlusToken: return this.add(a, b);
            case K.MinusToken: return a.t === 'num' && b.t === 'num' ? N(a.n - b.n) : app('-', a, b);
            case K.EqualsEqualsEqualsToken: case K.EqualsEqualsToken: return B(this.equal(a, b, n));
            case K.ExclamationEqualsEqualsToken: case K.ExclamationEqualsToken: return B(!this.equal(a, b, n));
            case K.LessThanToken: return B(this.compare('<', a, b, n));
            case K.LessThanEqualsToken: return B(this.compare('<=', a, b, n));
            case K.GreaterThanToken: return B(this.compare('>', a, b, n));
            case K.GreaterThanEqualsToken: return B(this.compare('>=', a, b, n));
            case K.InstanceOfKeyword: return app('instanceof', a, b.t === 'class' ? S('class') : b);
            }
            throw new Undecided('this operator', n);
        }
        throw new Undecided('an expression of this kind (' + ts.SyntaxKind[n.kind] + ')', n);
    }
    add(a, b) {
        if (a.t === 'num' && b.t === 'num') return N(a.n + b.n);
        if (isString(a) || isString(b)) return cat(a, b);
        return app('+', a, b);
    }
    *assign(l, v, sc) {
        while (ts.isNonNullExpression(l) || ts.isParenthesizedExpression(l) || ts.isAsExpression(l)) l = l.expression;
        if (ts.isIdentifier(l)) {
            const s = this.find(sc, l.text);
            if (!s) throw new Undecided('a global that is assigned', l);
            s.vars.set(l.text, v);
            return;
        }
        if (ts.isPropertyAccessExpression(l)) {
            const o = yield* this.expr(l.expression, sc);
            if (o.t !== 'obj') { if (o.t === 'sym') return; throw new Undecided('what is assigned to is not known', l); }
            o.props.set(l.name.text, v);
            return;
        }
        throw new Undecided('this assignment', l);
    }
    prop(o, name, node) {
        if (o.t === 'undef' || o.t === 'null') throw new Thrown(this.obj('error'));
        if (o.t === 'promise') {
            if (name === 'then') return native(name, a => this.thenable(o, a[0], a[1]));
            if (name === 'catch') return native(name, a => this.thenable(o, null, a[0]));
            if (name === 'finally') return native(name, a => this.finally(o, a[0]));
        }
        if (o.t === 'obj') {
            if (o.props.has(name)) return o.props.get(name);
            if (o.get) return this.deref(o.get(name));
            if (o.other) return o.other(name);
            return U;
        }
        if (o.t === 'arr') {
            if (name === 'join') return native(name, a => cat(...o.items.flatMap((x, i) => i ? [a[0] || S(','), x] : [x])));
            if (name === 'includes') return native(name, a => B(o.items.some(x => this.equal(x, a[0], node))));
            if (name === 'length') return N(o.items.length);
        }
        if (isString(o)) {
            if (name === 'length') return o.t === 'str' ? N(o.s.length) : app('length', o);
            const len = key(app('length', o));
            const minus1 = x => x && (x.t === 'num' && x.n === -1 || x.t === 'app' && x.f === '-' && key(x) === '-(' + len + ',1)');
            switch (name) {
            case 'slice': case 'substring': case 'substr':
                return native(name, a => {
                    if (o.t === 'str' && a.every(x => x.t === 'num')) return S(o.s[name](...a.map(x => x.n)));
                    if (a.length === 2 && a[0].t === 'num' && a[0].n === 0 && minus1(a[1]) && (name === 'slice' || a[1].t === 'app')) {
                        const parts = o.t === 'cat' ? o.parts : [o];
                        if (parts[parts.length - 1].kind === 'char') return cat(...parts.slice(0, -1));
                        return app('dropLast', o);
                    }
                    return app(name, o, ...a);
                });
            case 'trim': return native(name, () => o.t === 'str' ? S(o.s.trim()) : app('trim', o));
            case 'concat': return native(name, a => cat(o, ...a));
            case 'toString': return native(name, () => o);
            case 'charCodeAt': case 'codePointAt': return native(name, a => o.t === 'str' ? N(o.s.charCodeAt(0)) : app('code', o));
            case 'replace': case 'replaceAll': return native(name, a => app('replace', o, ...a.filter(x => x.t !== 'fn')));
            }
            return native(name, a => o.t === 'str' && typeof o.s[name] === 'function' && a.every(x => x.t === 'str' || x.t === 'num') ?
                lift(o.s[name](...a.map(x => x.t === 'str' ? x.s : x.n)), node) : app(name, o, ...a));
        }
        if (o.t === 'sym' || o.t === 'app') {
            if (o.t === 'sym' && (o.name === 'engine error' || o.name === 'syntax error' || o.name === 'not loaded')) return name === 'message' ? app('message', o) : app('prop', o, S(name));
            if (o.t === 'sym') return sym(o.name + '.' + name, 'object');
            return app('prop', o, S(name));
        }
        if (o.t === 'fn' || o.t === 'native' || o.t === 'class') return U;
        throw new Undecided('the property ' + name + ' of something unknown', node);
    }
}
// what comes from outside
function opaque(v) {
    return v.t === 'app' ? (v.f === 'call' || v.f === 'prop') && opaque(v.args[0]) : v.t === 'sym' && /^(global|import|new) /.test(v.name);
}
function lift(x, node) {
    if (typeof x === 'string') return S(x);
    if (typeof x === 'number') return N(x);
    if (typeof x === 'boolean') return B(x);
    throw new Undecided('this method', node);
}
function optional(e) {
    for (;;) {
        if (e.questionDotToken) return true;
        if (ts.isPropertyAccessExpression(e) || ts.isCallExpression(e) || ts.isElementAccessExpression(e)) { e = e.expression; continue; }
        return false;
    }
}

// every way through: f is followed once for each sequence of choices
let ways = 0;
const functions = new Set();
function explore(f) {
    const scripts = [[]];
    while (scripts.length) {
        const script = scripts.pop();
        const w = new World(script);
        if (++ways > 4000) throw new Undecided('too many ways through');
        f(w);
        for (const fn of w.functions) functions.add(fn);
        for (let i = script.length; i < w.taken.length; i++)
            for (let c = 1; c < w.taken[i][1]; c++) scripts.push([...w.taken.slice(0, i).map(t => t[0]), c]);
    }
}

// ---- the components
const components = [];
for (const [f, sf] of sources) {
    if (!f.endsWith('.tsx') || f === 'main.tsx') continue;
    for (const st of sf.statements) {
        if (ts.isFunctionDeclaration(st) && st.name && /^[A-Z]/.test(st.name.text)) components.push([f, st.name.text, st]);
        if (ts.isVariableStatement(st)) for (const d of st.declarationList.declarations)
            if (ts.isIdentifier(d.name) && /^[A-Z]/.test(d.name.text) && d.initializer) components.push([f, d.name.text, d]);
    }
}
function start(w, f, name) {
    const m = w.module(f);
    const c = w.deref(m.vars.get(name));
    if (c.t !== 'fn') return false;
    w.memo.set('true element', 0);
    w.call(c, [w.obj('props')]);
    // what is rendered is there when the effects run
    for (const vars of w.heap) if (vars.has('current') && vars.get('current').t === 'null') vars.set('current', sym('element', 'object'));
    for (const e of w.effects) {
        if (e[1] && e[1].t === 'arr' && e[1].items.length > 0 && w.handlers.length) throw new Undecided('effects that run again');
        w.call(e[0], []);
    }
    w.drain();
    return w.handlers.length > 0;
}
function text(ws) { return cat(...ws.map(x => x[1])); }
function endsWith(v, p) {
    const last = v.t === 'cat' ? v.parts[v.parts.length - 1] : v;
    return last.t === 'str' && last.s.endsWith(p);
}
function count(v, p) {
    return (v.t === 'cat' ? v.parts : [v]).reduce((n, x) => n + (x.t === 'str' ? x.s.split(p).length - 1 : 0), 0);
}
// locations that hold strings
function snapshot(w) {
    const out = [];
    for (const m of w.heap) for (const [k, v] of m) if (isString(v)) out.push([m, k, key(v)]);
    return out;
}
function state(w) { return w.taken.map(t => (t[0] ? 'not: ' : '') + t[2]).join('; '); }

let terminals = 0;
for (const [f, name, node] of components) {
    const seen = new Map();
    const must = (k, ok, msg) => { if (!seen.has(k) || !ok && seen.get(k) === '') seen.set(k, ok ? '' : msg); return ok; };
    let isTerm = false;
    try {
        // one key pressed in any state of the line
        const press = (what, check) => explore(w => {
            if (!start(w, f, name)) return;
            isTerm = true;
            const init = w.trace.filter(x => x[0] === 'write');
            const last = init.length ? init[init.length - 1][1] : S('');
            if (!must('prompt at the start', last.t === 'str' && last.s.trim() !== '', name + ' writes no prompt when it starts')) return;
            if (!must('one handler', w.handlers.length === 1, 'what is typed is handled ' + w.handlers.length + ' times')) return;
            const type = c => {
                w.trace = [];
                try { w.call(w.handlers[0], [c]); } catch (e) { if (!(e instanceof Thrown)) throw e; }
                w.drain();
            };
            // where the line is kept: what is empty, and the first character typed is in it
            const before = snapshot(w);
            type(sym('first', 'char'));
            const places = [];
            for (const [m, k, v] of before) if (v === '""' && m.has(k) && key(m.get(k)) === 'first') places.push([m, k]);
            if (!must('line kept', places.length === 1, 'the first character typed is kept in ' + places.length + ' places' + ' when [' + state(w) + ']')) return;
            const [m, k] = places[0];
            const line = sym('line', 'string');
            m.set(k, line);
            // and nothing else that changed matters: the same again
            const cond = () => ' when [' + state(w) + ']';
            check(w, type, line, () => m.get(k), last.s, cond);
        });
        press('a character', (w, type, line, now, prompt, cond) => {
            const c = sym('char', 'char');
            type(c);
            must('character kept', key(now()) === key(cat(line, c)), 'after a character is typed the line is ' + key(now()) + cond());
            must('character shown', key(text(w.trace.filter(x => x[0] === 'write'))).includes('char'), 'a character that is typed is not shown' + cond());
            must('character not sent', !w.trace.some(x => x[0] === 'send'), 'a character that is typed is sent before the line is ended' + cond());
        });
        press('backspace', (w, type, line, now, prompt, cond) => {
            type(S('\u007f'));
            const v = now(), empty = w.memo.get('true line') === 1;
            must('character taken back', key(v) === 'dropLast(line)' || empty && (key(v) === 'line' || key(v) === '""'), 'after a character is taken back the line is ' + key(v) + cond());
            must('nothing sent', !w.trace.some(x => x[0] === 'send'), 'taking back a character sends something' + cond());
        });
        press('the end of the line', (w, type, line, now, prompt, cond) => {
            for (let round = 1; round <= 2; round++) {
                const l = round === 1 ? line : cat(sym('next', 'char'));
                w.round = round;
                if (round === 2) type(l);
                w.memo.delete('true line');
                type(S('\r'));
                const sends = w.trace.filter(x => x[0] === 'send');
                if (w.ready[w.round] !== false) {
                    must('sent once', sends.length === 1, 'a line that is ended is sent ' + sends.length + ' times' + cond());
                    for (const s of sends) must('sent as typed', key(s[1]) === key(l), 'what is sent for the line ' + key(l) + ' is ' + key(s[1]) + cond());
                }
                const at = w.trace.findIndex(x => x[0] === 'send');
                const after = w.trace.slice(at + 1).filter(x => x[0] === 'write');
                const t = text(after);
                if (!must('prompt again', endsWith(t, prompt) && count(t, prompt) === 1, 'after a line is ended the terminal shows ' + count(t, prompt) + ' prompts, and ' + (endsWith(t, prompt) ? 'ends' : 'does not end') + ' with one' + cond())) return;
                // what is shown before the prompt
                const answered = sends.length > 0 && w.memo.get('the engine answers ' + w.sends) === 0;
                const broken = w.memo.get('parses reply ' + w.sends) === 1;
                if (answered && !broken) must('reply shown', mentions(t, 'reply ' + w.sends), 'the reply is not shown: ' + key(t) + cond());
                else must('failure shown', (t.t === 'cat' ? t.parts : [t]).some(x => x.t !== 'str') || t.s.slice(0, t.s.length - prompt.length).trim() !== '', 'nothing is shown for a line that could not be answered' + cond());
                must('line emptied', key(now()) === '""', 'after a line is ended the next one starts with ' + key(now()) + cond());
            }
        });
    } catch (e) {
        if (!(e instanceof Undecided)) throw e;
        if (isTerm || /new Terminal|onData/.test(node.getText())) report('followed: ' + name, false, e.node || node, 'what ' + name + ' does cannot be followed: ' + e.message);
        if (!isTerm) continue;
    }
    if (!isTerm) continue;
    terminals++;
    for (const [k, msg] of seen) report(name + ': ' + k, msg === '', node, msg || 'on every way through');
    for (const k of ['prompt at the start', 'line kept', 'character kept', 'character shown', 'character taken back', 'sent once', 'sent as typed', 'prompt again', 'reply shown', 'failure shown', 'line emptied'])
        if (!seen.has(k)) report(name + ': ' + k, false, node, 'not found on any way through');
}
report('terminals', terminals > 0, sources.values().next().value, terminals + ' components that take what is typed');
console.log(JSON.stringify({done: true, ways, functions: [...functions].map(n => { const p = where(n); return p.file + ':' + p.line; })}));
