"""Execution of the extracted syntax trees."""
import z3
from fractions import Fraction
from .cxx import T, ty, line, Unsupported, parse_type
from .val import *
from .val import S as simp
from .sym import *

def strip(n):
    while n.get('kind') in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr', 'FullExpr') or \
          (n.get('kind') in ('ImplicitCastExpr', 'CXXFunctionalCastExpr', 'CStyleCastExpr') and n.get('castKind') in ('NoOp', 'FunctionToPointerDecay', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion')):
        n = n['inner'][-1] if n['kind'] != 'ConstantExpr' else n['inner'][0]
    return n

class Exec(Eng):
    # ---------------------------------------------------------------- functions
    def call(self, st, fn, this, args, node=None):
        """calls function declaration fn; args: LV for references, values otherwise"""
        d = self.p.body_of(fn)
        if d is None: raise Oops('no body: ' + fn.get('_q', '?'))
        q = d['_q']
        c = self.contracts.get(q)
        if c is not None and q not in self.nocontract:
            self.assumed.add('contract of ' + q)
            return c(self, st, this, args, node)
        if self.depth > 30: raise Oops('recursion in ' + q)
        self.used.add(q)
        self.uid += 1
        fr = self.uid
        prev = (getattr(self, 'frame', None), getattr(self, 'this', None))
        self.frame, self.this = fr, this
        self.fnstack.append(q); self.depth += 1
        saved_ord = getattr(self, 'loopord', None); self.loopord = {}
        try:
            for p, a in zip(d['_params'], args):
                self.bind(st, p, a)
            rt = parse_type(d['type']['qualType'].split('(')[0]) if d['kind'] in ('FunctionDecl', 'CXXMethodDecl') else T('void')
            self.rettype = getattr(self, 'rettype', None)
            old_rt, self.rettype = self.rettype, rt
            if d['kind'] == 'CXXConstructorDecl': self.member_inits(st, d, this)
            fl = self.block(st, d['_body'])
            self.rettype = old_rt
        finally:
            self.frame, self.this = prev
            self.fnstack.pop(); self.depth -= 1; self.loopord = saved_ord
        outs = list(fl.rets)
        if fl.next is not None: outs.append((fl.next, None))
        if not outs: raise Dead()
        s, v = self.merge_outs(st, outs)
        st.take(s)
        for k in [k for k in st.mem if isinstance(k, tuple) and k[0] == 'v' and k[1] == fr]: del st.mem[k]
        return v
    nocontract = frozenset()
    def bind(self, st, p, a):
        key = ('v', self.frame, p['id'])
        t = ty(p)
        if t.k == 'ref':
            if isinstance(a, LV):
                a = self.resolve(st, a)
                st.mem[key] = RefVal(a)
            else:
                self.uid += 1
                tmp = ('t', self.uid); st.mem[tmp] = a; st.mem[key] = RefVal(LV(tmp))
        else:
            st.mem[key] = a
    def resolve(self, st, lv):
        v = st.mem.get(lv.root)
        if isinstance(v, RefVal): return self.resolve(st, LV(v.lv.root, v.lv.steps + lv.steps))
        return lv
    def member_inits(self, st, d, this):
        for i in d['_inits']:
            f = i.get('anyInit')
            if not f: raise Oops('base class initialiser')
            e = i['inner'][0] if i.get('inner') else None
            t = parse_type(f['type'].get('desugaredQualType') or f['type']['qualType'])
            if e is None or e.get('kind') in ('CXXDefaultInitExpr',): continue
            s = strip(e)
            if s.get('kind') == 'CXXConstructExpr' and t.k == 'rec':
                self.construct(st, this.f(f['name']), t, s)
            else:
                self.write(st, this.f(f['name']), self.init_value(st, t, e))
    def merge_outs(self, base, outs):
        if len(outs) == 1: return outs[0]
        npc = common(base.pc, [s.pc for s, _ in outs])
        s, v = outs[-1]
        s = s.copy()
        conds = [land(*o.pc[npc:]) for o, _ in outs]
        ext = conds[-1]
        for (o, ov), c in list(zip(outs, conds))[-2::-1]:
            mem = {}
            for k in o.mem:
                if k in s.mem:
                    a, b = o.mem[k], s.mem[k]
                    if a is b: mem[k] = a
                    else:
                        try: mem[k] = vite(c, a, b)
                        except Unsupported as e: mem[k] = Bad(str(e))
                elif isinstance(k, tuple) and k[0] in ('h', 'live', 't'): mem[k] = o.mem[k]
            for k in s.mem:
                if k not in o.mem and isinstance(k, tuple) and k[0] in ('h', 'live', 't'): mem[k] = s.mem[k]
            if v is not None or ov is not None:
                if isinstance(v, LV) and isinstance(ov, LV):
                    if same_lv(v, ov) is not True: raise Oops('reference to one of two objects')
                else: v = vite(c, ov, v) if ov is not None and v is not None else (ov if v is None else v)
            ext = lor(c, ext)
            s = St(mem, s.pc)
        comp = simp(ext) if isz(ext) else ext
        s.pc = list(outs[0][0].pc[:npc]) + ([] if comp is True else [comp])
        return s, v
    # ---------------------------------------------------------------- statements
    def block(self, st, n):
        """executes a statement on st (consumed); returns a Flow"""
        k = n.get('kind')
        m = getattr(self, 's_' + (k or 'none'), None)
        try:
            if m: return m(st, n)
            self.ev(st, n)          # expression statement
            return Flow(st)
        except Dead:
            return Flow(None)
    def s_CompoundStmt(self, st, n):
        fl = Flow(st)
        for c in n.get('inner', []):
            if fl.next is None: break
            r = self.block(fl.next, c)
            fl = fl.then(r)
        return fl
    def s_NullStmt(self, st, n): return Flow(st)
    def s_none(self, st, n): return Flow(st)
    def s_DeclStmt(self, st, n):
        for d in n.get('inner', []):
            if d.get('kind') == 'VarDecl': self.vardecl(st, d)
            elif d.get('kind') in ('TypedefDecl', 'UsingDecl', 'UsingDirectiveDecl', 'TypeAliasDecl', 'StaticAssertDecl'): pass
            else: raise Oops('declaration ' + d.get('kind', '?'))
        return Flow(st)
    def vardecl(self, st, d):
        key = ('v', self.frame, d['id'])
        t = ty(d)
        init = [x for x in d.get('inner', []) if x.get('kind') and not x['kind'].endswith('Attr')]
        if t.k == 'ref':
            a = self.lv_or_val(st, init[0])
            if isinstance(a, LV): st.mem[key] = RefVal(self.resolve(st, a))
            else:
                self.uid += 1
                tmp = ('t', self.uid); st.mem[tmp] = a; st.mem[key] = RefVal(LV(tmp))
            return
        if t.k == 'rec':
            st.mem[key] = UNINIT
            e = strip(init[0]) if init else None
            if e is not None and e.get('kind') in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'): self.construct(st, LV(key), t, e)
            elif e is not None: st.mem[key] = self.ev(st, init[0])
            else: st.mem[key] = self.default(t)
            return
        st.mem[key] = self.init_value(st, t, init[0]) if init else self.default(t)
    def default(self, t):
        """value of an object that is declared without an initialiser"""
        if t.k == 'vec': return Arr(0, AList([]), t.a)
        if t.k == 'arr': return Arr(t.n, AList([self.default(t.a) for _ in range(t.n)]), t.a) if t.n is not None and t.n <= 64 else self.fresh(t)
        if t.k == 'map': return MapV(0, AList([]), AList([]), t.a, t.b)
        if t.k == 'set': return MapV(0, AList([]), None, t.a, None)
        if t.k == 'rec':
            r = {}
            for f in self.p.fields.get(t.a, []): r[f['name']] = self.default(ty(f))
            return Rec(t.a, r)
        if t.k == 'pair': return Rec('pair', {'first': self.default_init(t.a), 'second': self.default_init(t.b)})
        if t.k in ('int', 'real', 'bool'): return self.fresh(t, 'uninit')
        return UNINIT
    def default_init(self, t):
        """value initialisation: zero"""
        if t.k == 'int': return 0
        if t.k == 'real': return Fraction(0)
        if t.k == 'bool': return False
        if t.k == 'ptr': return NULL
        if t.k == 'pair': return Rec('pair', {'first': self.default_init(t.a), 'second': self.default_init(t.b)})
        return self.default(t)
    def init_value(self, st, t, e):
        s = strip(e)
        k = s.get('kind')
        if k == 'InitListExpr': return self.initlist(st, t, s)
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr') and ty(s).k == t.k: return self.ctor_value(st, ty(s), s)
        v = self.ev(st, e)
        return v
    def initlist(self, st, t, s):
        if s.get('array_filler'): raise Oops('partial initialiser')
        if t.k == 'arr':
            l = [self.init_value(st, t.a, c) for c in s.get('inner', [])]
            n = t.n if t.n is not None else len(l)
            while len(l) < n: l.append(self.default_init(t.a))
            return Arr(n, AList(l), t.a)
        if t.k == 'vec':
            l = [self.init_value(st, t.a, c) for c in s.get('inner', [])]
            return Arr(len(l), AList(l), t.a)
        raise Oops('initialiser list')
    def construct(self, st, lv, t, e):
        """runs the constructor of record t on lv"""
        if t.a not in self.p.recs: raise Oops('record ' + str(t.a))
        args = [x for x in e.get('inner', [])]
        if self.p.recs[t.a].get('_bases'): raise Oops('base class')
        sig = e.get('ctorType', {}).get('qualType', '')
        cands = [f for f in self.p.fns.get('%s::%s' % (t.a, t.a), []) if f['type']['qualType'].split(' noexcept')[0] == sig.split(' noexcept')[0] and len(f['_params']) >= len(args)]
        user = [f for f in cands if f['_body'] is not None]
        if not user:
            if len(args) == 1 and ty(args[0]).k == 'rec':
                self.write(st, lv, self.ev(st, args[0])); return
            if not args: self.write(st, lv, self.default(t)); return
            raise Oops('constructor of ' + t.a)
        self.write(st, lv, self.default(t))
        f = user[0]
        if f.get('isImplicit') and len(args) == 1:   # implicit copy
            self.write(st, lv, self.ev(st, args[0])); return
        self.call(st, f, self.resolve(st, lv), self.args(st, f, args), e)
    def args(self, st, f, nodes):
        out = []
        for p, a in zip(f['_params'], nodes):
            if a.get('kind') == 'CXXDefaultArgExpr':
                dflt = [x for x in p.get('inner', []) if x.get('kind')]
                if not dflt: raise Oops('default argument')
                a = dflt[0]
            t = ty(p)
            if t.k == 'ref': out.append(self.lv_or_val(st, a))
            else: out.append(self.init_value(st, t, a))
        return out
    def s_ReturnStmt(self, st, n):
        v = None
        if n.get('inner'):
            e = n['inner'][0]
            if self.rettype is not None and self.rettype.k == 'ref':
                v = self.lv_or_val(st, e)
                if isinstance(v, LV): v = self.resolve(st, v)
            else: v = self.init_value(st, ty(e), e)
        f = Flow(None); f.rets.append((st, v)); return f
    def s_BreakStmt(self, st, n):
        f = Flow(None); f.brks.append(st); return f
    def s_ContinueStmt(self, st, n):
        f = Flow(None); f.conts.append(st); return f
    def s_IfStmt(self, st, n):
        inner = [x for x in n['inner']]
        if n.get('hasInit') or n.get('hasVar'): raise Oops('if with a declaration')
        c = tobool(self.ev(st, inner[0]))
        d = self.decide(st, c) if isz(c) else c
        if d is True: return self.block(st, inner[1])
        if d is False: return self.block(st, inner[2]) if len(inner) > 2 else Flow(st)
        a, b = st.copy(), st
        base = st.copy()
        a.cond(c); b.cond(nt(c))
        fa = self.block(a, inner[1])
        fb = self.block(b, inner[2]) if len(inner) > 2 else Flow(b)
        r = Flow(None)
        r.rets, r.brks, r.conts = fa.rets + fb.rets, fa.brks + fb.brks, fa.conts + fb.conts
        nx = [(s, None) for s in (fa.next, fb.next) if s is not None]
        if nx: r.next = self.merge_outs(base, nx)[0]
        return r
    def s_ForStmt(self, st, n):
        init, _, cond, inc, body = n['inner']
        if init.get('kind'):
            f = self.block(st, init)
            st = f.next
            if st is None: return Flow(None)
        return self.loop(st, n, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body)
    def s_WhileStmt(self, st, n):
        if len(n['inner']) != 2: raise Oops('while with a declaration')
        return self.loop(st, n, n['inner'][0], None, n['inner'][1])
    def s_DoStmt(self, st, n):
        body, cond = n['inner']
        f = self.block(st, body)
        nx = ([(f.next, None)] if f.next is not None else []) + [(s, None) for s in f.conts]
        r = Flow(None); r.rets = f.rets
        outs = [(s, None) for s in f.brks]
        if nx:
            s = self.merge_outs(st, nx)[0] if len(nx) > 1 else nx[0][0]
            f2 = self.loop(s, n, cond, None, body)
            r.rets = r.rets + f2.rets
            if f2.next is not None: outs.append((f2.next, None))
        if outs: r.next = self.merge_outs(st, outs)[0] if len(outs) > 1 else outs[0][0]
        return r
    # ---------------------------------------------------------------- loops
    def loop(self, st, n, cond, inc, body):
        fr = (self.fnstack[-1] if self.fnstack else '')
        o = self.loopord.setdefault('n', {})
        if n['id'] not in o: o[n['id']] = len(o)
        rets, brks = [], []
        for it in range(self.maxunroll):
            probe = st
            c = True if cond is None else tobool(self.ev(st, cond))
            d = self.decide(st, c) if (it == 0 or self.unroll_symbolic(fr)) and isz(c) else (None if isz(c) else c)
            if isz(c) and d is not False and not self.unroll_symbolic(fr):
                # decided once is not enough to unroll a symbolic loop
                spec = self.loopspec.get((fr, o[n['id']]))
                from . import loops
                f = loops.summarize(self, st, n, cond, inc, body, spec)
                f.rets = rets + f.rets
                outs = ([(f.next, None)] if f.next is not None else []) + [(s, None) for s in brks]
                f.next = (self.merge_outs(st, outs)[0] if len(outs) > 1 else outs[0][0]) if outs else None
                return f
            if d is False: break
            if d is None:
                b2 = st.copy(); b2.cond(nt(c)); brks.append(b2); st.cond(c)
            base = st.copy()
            f = self.block(st, body)
            rets += f.rets; brks += f.brks
            nx = ([(f.next, None)] if f.next is not None else []) + [(s, None) for s in f.conts]
            if not nx: st = None; break
            st = self.merge_outs(base, nx)[0] if len(nx) > 1 else nx[0][0]
            if inc is not None: self.ev(st, inc)
        else:
            raise Oops('loop not bounded')
        r = Flow(None); r.rets = rets
        outs = ([(st, None)] if st is not None else []) + [(s, None) for s in brks]
        if outs: r.next = self.merge_outs(outs[0][0], outs)[0] if len(outs) > 1 else outs[0][0]
        return r
    unroll_fns = frozenset()
    def unroll_symbolic(self, fr): return fr in self.unroll_fns
    # ---------------------------------------------------------------- expressions
    def ev(self, st, n):
        k = n.get('kind')
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Oops('expression ' + str(k))
        return m(st, n)
    def lv_or_val(self, st, n):
        """lvalue when the expression designates an object, else its value"""
        s = strip(n)
        if s.get('valueCategory') == 'lvalue':
            try: return self.lv(st, s)
            except NoLV: pass
        elif s.get('valueCategory') == 'xvalue':
            try: return self.lv(st, s)
            except (NoLV, Unsupported): pass
        return self.init_value(st, ty(s), n)
    def lv(self, st, n):
        k = n.get('kind')
        m = getattr(self, 'l_' + k, None)
        if m is None: raise NoLV(k)
        return m(st, n)
    def l_ParenExpr(self, st, n): return self.lv(st, n['inner'][0])
    l_ExprWithCleanups = l_ParenExpr
    l_MaterializeTemporaryExpr = l_ParenExpr
    l_CXXBindTemporaryExpr = l_ParenExpr
    def l_ImplicitCastExpr(self, st, n):
        if n.get('castKind') in ('NoOp', 'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion'): return self.lv(st, n['inner'][0])
        raise NoLV(n.get('castKind'))
    l_CStyleCastExpr = l_ImplicitCastExpr
    l_CXXStaticCastExpr = l_ImplicitCastExpr
    l_CXXConstCastExpr = l_ImplicitCastExpr
    def l_DeclRefExpr(self, st, n):
        d = n['referencedDecl']
        if d['kind'] in ('VarDecl', 'ParmVarDecl'):
            key = ('v', self.frame, d['id'])
            if key in st.mem:
                v = st.mem[key]
                return v.lv if isinstance(v, RefVal) else LV(key)
            if d['id'] in self.p.globals:
                g = ('g', d['id'])
                if g not in st.mem:
                    vd = self.p.globals[d['id']]
                    init = [x for x in vd.get('inner', []) if x.get('kind')]
                    st.mem[g] = self.init_value(st, ty(vd), init[0]) if init else self.default_init(ty(vd))
                return LV(g)
            raise NoLV('external variable ' + d.get('name', '?'))
        raise NoLV(d['kind'])
    def l_MemberExpr(self, st, n):
        b = n['inner'][0]
        name = n['name']
        if n.get('isArrow'):
            p = self.ev(st, b)
            return self.deref(st, p).f(name)
        s = strip(b)
        try: base = self.lv(st, s)
        except NoLV:
            v = self.ev(st, b)
            self.uid += 1
            tmp = ('t', self.uid); st.mem[tmp] = v; base = LV(tmp)
        return base.f(name)
    def l_ArraySubscriptExpr(self, st, n):
        b, i = n['inner']
        bv = self.ev(st, b); iv = self.ev(st, i)
        if isnum(bv): bv, iv = iv, bv
        return self.deref(st, bv, iv)
    def l_UnaryOperator(self, st, n):
        op = n['opcode']
        if op == '*': return self.deref(st, self.ev(st, n['inner'][0]))
        if op in ('++', '--') and not n.get('isPostfix'):
            self.ev(st, n); return self.lv(st, n['inner'][0])
        raise NoLV(op)
    def l_BinaryOperator(self, st, n):
        if n['opcode'] == '=':
            self.ev(st, n); return self.lv(st, n['inner'][0])
        if n['opcode'] == ',':
            self.ev(st, n['inner'][0]); return self.lv(st, n['inner'][1])
        raise NoLV('binary')
    def l_CompoundAssignOperator(self, st, n):
        self.ev(st, n); return self.lv(st, n['inner'][0])
    def l_ConditionalOperator(self, st, n):
        c = tobool(self.ev(st, n['inner'][0]))
        d = self.decide(st, c)
        if d is None: raise NoLV('conditional')
        return self.lv(st, n['inner'][1 if d else 2])
    def l_CXXThisExpr(self, st, n): raise NoLV('this')
    def l_CXXOperatorCallExpr(self, st, n):
        from . import lib
        return lib.op_lv(self, st, n)
    def l_CXXMemberCallExpr(self, st, n):
        from . import lib
        r = lib.member_call(self, st, n)
        if isinstance(r, LV): return r
        if r is None: raise Oops('void lvalue')
        self.uid += 1
        tmp = ('t', self.uid); st.mem[tmp] = r
        return LV(tmp)
    def l_CallExpr(self, st, n):
        from . import lib
        r = lib.call_expr(self, st, n)
        if isinstance(r, LV): return r
        if r is None: raise Oops('void lvalue')
        self.uid += 1
        tmp = ('t', self.uid); st.mem[tmp] = r
        return LV(tmp)
    # rvalues
    def val(self, st, r):
        return self.read(st, r) if isinstance(r, LV) else r
    def e_ParenExpr(self, st, n): return self.ev(st, n['inner'][0])
    e_ExprWithCleanups = e_ParenExpr
    e_MaterializeTemporaryExpr = e_ParenExpr
    e_CXXBindTemporaryExpr = e_ParenExpr
    e_ConstantExpr = e_ParenExpr
    e_SubstNonTypeTemplateParmExpr = e_ParenExpr
    def e_CXXDefaultArgExpr(self, st, n):
        if n.get('inner'): return self.ev(st, n['inner'][0])
        return UNINIT
    def e_IntegerLiteral(self, st, n): return int(n['value'])
    def e_FloatingLiteral(self, st, n):
        return Fraction(n['value']) if not any(c in n['value'].lower() for c in 'xn') else Fraction(float(n['value']))
    def e_CXXBoolLiteralExpr(self, st, n): return bool(n['value'])
    def e_CharacterLiteral(self, st, n): return int(n['value'])
    def e_GNUNullExpr(self, st, n): return 0
    def e_CXXNullPtrLiteralExpr(self, st, n): return NULL
    def e_StringLiteral(self, st, n): return UNINIT
    def e_CXXThisExpr(self, st, n): return Ptr(self.this)
    def e_UnaryExprOrTypeTraitExpr(self, st, n): raise Oops('sizeof')
    def e_DeclRefExpr(self, st, n):
        d = n['referencedDecl']
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'): return FnVal(d)
        if d['kind'] == 'EnumConstantDecl':
            return self.p.byid[d['id']]['_value']
        return self.read(st, self.lv(st, n))
    def e_MemberExpr(self, st, n):
        return self.read(st, self.lv(st, n))
    def e_ArraySubscriptExpr(self, st, n): return self.read(st, self.lv(st, n))
    def e_CXXOperatorCallExpr(self, st, n):
        from . import lib
        return lib.op_val(self, st, n)
    def e_CXXMemberCallExpr(self, st, n):
        from . import lib
        return self.val(st, lib.member_call(self, st, n))
    def e_CallExpr(self, st, n):
        from . import lib
        return self.val(st, lib.call_expr(self, st, n))
    def e_CXXConstructExpr(self, st, n): return self.ctor_value(st, ty(n), n)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr
    def ctor_value(self, st, t, n):
        from . import lib
        if t.k == 'rec':
            args = n.get('inner', [])
            if len(args) == 1 and ty(args[0]).k == 'rec' and ty(args[0]).a == t.a: return self.val(st, self.lv_or_val(st, args[0]))
            self.uid += 1
            tmp = ('t', self.uid); st.mem[tmp] = UNINIT
            self.construct(st, LV(tmp), t, n)
            return self.read(st, LV(tmp))
        return lib.ctor(self, st, t, n)
    def e_CXXScalarValueInitExpr(self, st, n): return self.default_init(ty(n))
    def e_ImplicitValueInitExpr(self, st, n): return self.default_init(ty(n))
    def e_InitListExpr(self, st, n): return self.initlist(st, ty(n), n)
    def e_ImplicitCastExpr(self, st, n):
        ck = n.get('castKind')
        e = n['inner'][0]
        if ck == 'LValueToRValue':
            return self.val(st, self.lv_or_val(st, e))
        if ck in ('NoOp', 'DerivedToBase', 'ConstructorConversion', 'FunctionToPointerDecay', 'UserDefinedConversion', 'BuiltinFnToFnPtr'):
            return self.ev(st, e)
        if ck == 'ArrayToPointerDecay':
            if strip(e).get('kind') == 'StringLiteral': return UNINIT
            return Ptr(self.resolve(st, self.lv(st, strip(e))), 0)
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
            v = self.ev(st, e)
            t = ty(n)
            if ck == 'FloatingToIntegral':
                r = trunc(v)
                return r if t.a[0] else self.convert(st, r, t)
            return self.convert(st, v, t)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'): return tobool(self.ev(st, e))
        if ck == 'NullToPointer': return NULL
        if ck == 'BitCast':
            v = self.ev(st, e)
            return v
        raise Oops('cast ' + str(ck))
    e_CStyleCastExpr = e_ImplicitCastExpr
    e_CXXFunctionalCastExpr = e_ImplicitCastExpr
    e_CXXStaticCastExpr = e_ImplicitCastExpr
    e_CXXConstCastExpr = e_ImplicitCastExpr
    def e_ConditionalOperator(self, st, n):
        c = tobool(self.ev(st, n['inner'][0]))
        d = self.decide(st, c) if isz(c) else c
        if d is not None: return self.ev(st, n['inner'][1 if d else 2])
        a, b = st.copy(), st.copy()
        a.cond(c); b.cond(nt(c))
        outs = []
        for s, e in ((a, n['inner'][1]), (b, n['inner'][2])):
            try: outs.append((s, self.ev(s, e)))
            except Dead: pass
        if not outs: raise Dead()
        s, v = self.merge_outs(st, outs)
        st.take(s)
        return v
    def e_UnaryOperator(self, st, n):
        op, e = n['opcode'], n['inner'][0]
        if op == '&':
            lv = self.resolve(st, self.lv(st, strip(e)))
            if lv.steps and lv.steps[-1][0] == 'i': return Ptr(LV(lv.root, lv.steps[:-1]), lv.steps[-1][1])
            return Ptr(lv)
        if op == '*': return self.read(st, self.lv(st, n))
        if op in ('++', '--'):
            lv = self.resolve(st, self.lv(st, strip(e)))
            v = self.read(st, lv)
            d = 1 if op == '++' else -1
            if isinstance(v, Ptr): w = v.off(d)
            elif isinstance(v, MapIt): w = MapIt(v.lv, add(v.pos, d), v.vid)
            else: w = add(v, d) if d > 0 and isz(v) else self.wrap(st, add(v, d), ty(e))
            self.write(st, lv, w)
            return v if n.get('isPostfix') else w
        v = self.ev(st, e)
        if op == '-': return self.wrap(st, neg(v), ty(n)) if ty(n).k == 'int' else (-v)
        if op == '+': return v
        if op == '!': return nt(tobool(v))
        raise Oops('operator ' + op)
    def e_BinaryOperator(self, st, n):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            lv = self.lv(st, strip(a))
            v = self.ev(st, b)
            lv = self.resolve(st, lv)
            self.write(st, lv, v)
            return v
        if op == ',':
            self.ev(st, a); return self.ev(st, b)
        if op in ('&&', '||'):
            x = tobool(self.ev(st, a))
            d = self.decide(st, x) if isz(x) else x
            if op == '&&' and d is False: return False
            if op == '||' and d is True: return True
            if d is not None: return tobool(self.ev(st, b))
            s = st.copy()
            s.cond(x if op == '&&' else nt(x))
            base = st.copy()
            try: y = tobool(self.ev(s, b))
            except Dead: y = (op == '||')
            r = land(x, y) if op == '&&' else lor(x, y)
            if any(s.mem.get(k) is not base.mem.get(k) for k in s.mem if not (isinstance(k, tuple) and k[0] == 't')):
                o = st.copy(); o.cond(nt(x) if op == '&&' else x)
                s.pc = s.pc[:len(base.pc) + 1]
                m, _ = self.merge_outs(base, [(s, None), (o, None)])
                st.take(m)
            return r
        return self.binop(st, op, self.ev(st, a), self.ev(st, b), ty(n), ty(a))
    def binop(self, st, op, x, y, t, ta=None):
        if isinstance(x, (Ptr, PtrIte)) or isinstance(y, (Ptr, PtrIte)):
            return self.ptrop(st, op, x, y)
        if x is UNINIT or y is UNINIT: raise Oops('operation on an opaque value')
        if op in ('==', '!=', '<', '>', '<=', '>='):
            r = {'==': eq, '!=': lambda a, b: nt(eq(a, b)), '<': lt, '>': lambda a, b: lt(b, a), '<=': le, '>=': lambda a, b: le(b, a)}[op](x, y)
            return r
        if op in '+-' and t is not None and t.k == 'int' and not t.a[0]:
            # large unsigned constants stand for negative numbers
            w = t.a[1]
            if not isz(x) and isz(y) and x >= 1 << (w - 1): x -= 1 << w
            if not isz(y) and isz(x) and y >= 1 << (w - 1): y -= 1 << w
        if op == '+': r = add(x, y)
        elif op == '-': r = sub(x, y)
        elif op == '*': r = mul(x, y)
        elif op == '/':
            if t.k == 'real': return self.rdiv(st, x, y)
            return self.div(st, x, y, t)[0]
        elif op == '%': return self.div(st, x, y, t)[1]
        elif op in ('&', '|', '^') and isbool(x) and isbool(y):
            return land(x, y) if op == '&' else lor(x, y) if op == '|' else nt(eq(x, y))
        elif op in ('&', '|', '^') and not isz(x) and not isz(y): return {'&': int.__and__, '|': int.__or__, '^': int.__xor__}[op](int(x), int(y))
        elif op in ('&', '|') and all(zo(v) for v in (x, y)):
            bx, by = tobool(x) , tobool(y)
            return ti(land(bx, by) if op == '&' else lor(bx, by))
        elif op in ('<<', '>>') and not isz(y): 
            if op == '<<': r = mul(x, 1 << int(y))
            else: return self.div(st, x, 1 << int(y), t)[0]
        else: raise Oops('operator ' + op)
        if t.k == 'int' and not t.a[0] and op in '+*' and not any(not isz(v) and v < 0 for v in (x, y)): return self.wrap(st, r, t) if not isz(r) else r   # unsigned operands
        return self.wrap(st, r, t) if t.k == 'int' else r
    def ptrop(self, st, op, x, y):
        if isnum(x) and not isz(x) and x == 0 and op in ('==', '!='): x = NULL
        if isnum(y) and not isz(y) and y == 0 and op in ('==', '!='): y = NULL
        if op in ('==', '!='):
            if isinstance(x, PtrIte): r = vite(x.c, self.ptrop(st, '==', x.a, y), self.ptrop(st, '==', x.b, y))
            elif isinstance(y, PtrIte): r = vite(y.c, self.ptrop(st, '==', x, y.a), self.ptrop(st, '==', x, y.b))
            elif x.lv is None or y.lv is None: r = x.lv is None and y.lv is None
            else:
                r = same_lv(x.lv, y.lv)
                if x.idx is not None and y.idx is not None: r = land(r, eq(x.idx, y.idx))
                elif x.idx is not y.idx: raise Oops('pointer comparison')
            return r if op == '==' else nt(r)
        if op == '+': return x.off(y) if isinstance(x, Ptr) else y.off(x)
        if op == '-' and isnum(y): return x.off(neg(y))
        if op == '-' and isinstance(x, Ptr) and isinstance(y, Ptr) and x.lv is not None and same_lv(x.lv, y.lv) is True: return sub(x.idx, y.idx)
        if op in ('<', '>', '<=', '>=') and isinstance(x, Ptr) and isinstance(y, Ptr) and same_lv(x.lv, y.lv) is True:
            return self.binop(st, op, x.idx, y.idx, T('bool'))
        raise Oops('pointer operation ' + op)
    def e_CompoundAssignOperator(self, st, n):
        op = n['opcode'][:-1]
        a, b = n['inner']
        lv = self.resolve(st, self.lv(st, strip(a)))
        y = self.ev(st, b)
        x = self.read(st, lv)
        t = ty(a)
        tb = ty(b)
        ct = n.get('computeResultType', {}).get('qualType')
        ct = parse_type(ct) if ct else t
        cl = n.get('computeLHSType', {}).get('qualType')
        cl = parse_type(cl) if cl else ct
        if isinstance(x, Ptr): v = self.ptrop(st, op, x, y)
        else:
            v = self.binop(st, op, self.convert(st, x, cl) if isnum(x) and cl.k in ('int', 'real') and cl != t else x, y, ct)
            if ct != t: v = self.convert(st, v, t) if not (t.k == 'bool' and isbool(v)) else v
        self.write(st, lv, v)
        return v
    def e_CXXNewExpr(self, st, n):
        t = ty(n).a
        self.uid += 1
        root = ('h', self.uid)
        self.heap.append(root)
        inner = [x for x in n.get('inner', []) if x.get('kind')]
        st.mem[('live', root)] = True
        st.mem[root] = UNINIT
        if n.get('isArray'):
            cnt = self.ev(st, inner[0])
            et = t
            cnt = cnt if not isz(cnt) else cnt
            if isz(cnt) or cnt > 64: st.mem[root] = Arr(cnt, AUF(self.mk, et, self.fresh_name('new'), tuple(self.loopvars)), et)
            else: st.mem[root] = Arr(cnt, AList([self.default(et) for _ in range(cnt)]), et)
            self.heapkind[root] = 'array'
            return Ptr(LV(root), 0)
        self.heapkind[root] = 'object'
        if t.k == 'rec':
            e = strip(inner[0]) if inner else None
            if e is not None and e.get('kind') == 'CXXConstructExpr': self.construct(st, LV(root), t, e)
            else: st.mem[root] = self.default(t)
        else: st.mem[root] = self.init_value(st, t, inner[0]) if inner else self.default(t)
        return Ptr(LV(root))
    def e_CXXDeleteExpr(self, st, n):
        p = self.ev(st, n['inner'][0])
        arr = bool(n.get('isArray') or n.get('isArrayAsWritten'))
        self.delete(st, p, arr, ty(n['inner'][0]))
        return None
    def delete(self, st, p, arr, t=None):
        if isinstance(p, PtrIte):
            d = self.decide(st, p.c)
            if d is not None: return self.delete(st, p.a if d else p.b, arr, t)
            a, b = st.copy(), st.copy()
            a.cond(p.c); b.cond(nt(p.c))
            self.delete(a, p.a, arr, t); self.delete(b, p.b, arr, t)
            st.take(self.merge_outs(st, [(a, None), (b, None)])[0]); return
        if p is UNINIT: self.oblige(st, 'delete of an uninitialised pointer', False); return
        if p.lv is None: return
        root = p.lv.root
        if p.lv.steps or not (isinstance(root, tuple) and root[0] == 'h'):
            self.oblige(st, 'delete of an object that was not allocated', False); return
        live = st.mem.get(('live', root))
        if live is not True: self.oblige(st, 'object deleted once', live)
        self.oblige_c(st, 'matching form of delete', (self.heapkind.get(root) == 'array') == arr)
        v = st.mem[root]
        if isinstance(v, Rec): self.destroy(st, LV(root), v.name)
        st.mem[('live', root)] = False
    def destroy(self, st, lv, name):
        ds = [f for f in self.p.fns.get('%s::~%s' % (name, name), []) if f['_body'] is not None]
        if ds: self.call(st, ds[0], lv, [])
        v = self.read(st, lv)
        for k, x in v.f.items():
            if isinstance(x, Rec) and x.name != 'pair': self.destroy(st, lv.f(k), x.name)
    def e_CXXThrowExpr(self, st, n): raise Dead()
    def __init__(self, prog, solver):
        Eng.__init__(self, prog, solver)
        self.heap, self.heapkind = [], {}
        self.frame, self.this, self.rettype, self.loopord = 0, None, None, {}

class Bad:
    """value that could not be merged: an error only when used"""
    def __init__(self, why): self.why = why
    def sub(self, m): return self
    def ite(self, c, o): return self
    def same(self, o): return True
class NoLV(Unsupported): pass
class Flow:
    __slots__ = ('next', 'rets', 'brks', 'conts')
    def __init__(self, nx): self.next, self.rets, self.brks, self.conts = nx, [], [], []
    def then(self, r):
        f = Flow(r.next)
        f.rets, f.brks, f.conts = self.rets + r.rets, self.brks + r.brks, self.conts + r.conts
        return f
def common(base, pcs):
    n = min(len(p) for p in pcs)
    i = 0
    while i < n and all(p[i] is pcs[0][i] or (isz(p[i]) and isz(pcs[0][i]) and p[i].eq(pcs[0][i])) for p in pcs): i += 1
    return i
def zo(v):
    """a 0/1 integer made from a truth value"""
    if not isz(v): return isinstance(v, bool) or v in (0, 1)
    if z3.is_bool(v): return True
    return z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and zo(norm(v.arg(1))) and zo(norm(v.arg(2)))
