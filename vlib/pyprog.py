"""Random statement-level programs emitted twice: as a Cheetah template (one
tag per line) and as the Python function the tags stand for.  Python itself is
the oracle: it runs the second form."""


class PGen(object):
    def __init__(self, rng, defs=True, eol='\n', maxdepth=4, budget=40,
                 gen=False):
        self.r = rng
        self.c = []          # cheetah lines (with eol)
        self.p = []          # python lines
        self.eol = eol
        self.depth = 0       # python indentation
        self.budget = budget
        self.maxdepth = maxdepth
        self.loop = 0
        self.ints = []
        self.strs = []
        self.lists = []
        self.dicts = []
        self.objs = []
        self.nvar = 0
        self.meths = []
        self.indef = False
        self.infinally = 0
        self.feat = {}
        self.tick = 0
        self.eof = rng.choice(['', eol])

    # ------------------------------------------------------------- output
    def note(self, k):
        self.feat[k] = self.feat.get(k, 0) + 1

    def C(self, line):
        ind = self.r.choice(['', '', '  ', '\t', '    '])
        trail = self.r.choice(['', '', '', ' ', '\t'])
        self.c.append(ind + line + trail + self.eol)

    def P(self, line):
        self.p.append('    ' * (self.depth + 1) + line)

    def body(self, fn=None):
        self.depth += 1
        (fn or self.block)()
        self.depth -= 1

    def ws(self):
        """white space inside brackets"""
        return self.r.choice([' '] * 8 + [self.eol, ' ' + self.eol + '\t',
                                          '\\' + self.eol if self.eol
                                          != '\r' else ' '])

    def new(self, p):
        self.nvar += 1
        return '%s%d' % (p, self.nvar)

    # -------------------------------------------------------- expressions
    # each returns (cheetah, python)
    def var(self, n):
        return ('$' + n, n)

    def num(self, d=2):
        r = self.r
        k = r.randint(0, 12 if d else 3)
        if k <= 1:
            v = str(r.randint(-2, 7))
            return (v if v[0] != '-' else '(%s)' % v,) * 2
        if k <= 3:
            return self.var(r.choice(self.ints + ['N1', 'N2', 'N3']))
        if k == 4:
            a, b = self.num(d - 1), self.num(d - 1)
            op = r.choice(['+', '-', '*', '&', '|', '^'])
            return '(%s%s%s%s%s)' % (a[0], self.ws(), op, self.ws(), b[0]), \
                '(%s %s %s)' % (a[1], op, b[1])
        if k == 5:
            a = self.num(d - 1)
            self.tick += 1
            return '$T(%d, %s)' % (self.tick, a[0]), \
                'T(%d, %s)' % (self.tick, a[1])
        if k == 6:
            a = self.lst(d - 1)
            f = r.choice(['len', 'sum'])
            return '%s(%s)' % (f, a[0]), '%s(%s)' % (f, a[1])
        if k == 7:
            c, a, b = self.cond(d - 1), self.num(d - 1), self.num(d - 1)
            return ('(%s%sif %s%selse %s)' % (a[0], self.ws(), c[0],
                                              self.ws(), b[0]),
                    '(%s if %s else %s)' % (a[1], c[1], b[1]))
        if k == 8 and self.dicts:
            n = r.choice(self.dicts)
            return "$%s.get('k', 3)" % n, "%s.get('k', 3)" % n
        if k == 9:
            a = self.num(d - 1)
            n = r.choice(['q', 'N1', 'zz'])
            return ('(lambda %s: %s + 1)(%s)' % (n, n, a[0]),
                    '(lambda %s: %s + 1)(%s)' % (n, n, a[1]))
        if k == 10:
            a, b = self.num(d - 1), self.num(d - 1)
            nl = r.choice(['', '', self.eol, ' ' + self.eol + '  '])
            return '$ADD(%s,%s%s)' % (a[0], nl, b[0]), \
                'ADD(%s, %s)' % (a[1], b[1])
        if k == 11:
            a = self.num(d - 1)
            return '$ADD(b=%s, a=1)' % a[0], 'ADD(b=%s, a=1)' % a[1]
        if self.objs:
            n = r.choice(self.objs)
            return '$%s.val' % n, '%s.val' % n
        return '$O.val', 'O.val'

    def lst(self, d=1):
        r = self.r
        k = r.randint(0, 7 if d else 1)
        if k <= 1:
            return self.var(r.choice(self.lists + ['L1', 'L2']))
        if k == 2:
            e = [self.num(d - 1) for _ in range(r.randint(0, 3))]
            nl = r.choice(['', '', self.eol])
            return ('[' + (', ' + nl).join(x[0] for x in e) + ']',
                    '[' + ', '.join(x[1] for x in e) + ']')
        if k == 3:
            a, b = self.lst(d - 1), self.num(0)
            return ('[x + %s for x in %s]' % (b[0], a[0]),
                    '[x + %s for x in %s]' % (b[1], a[1]))
        if k == 4:
            a = self.lst(d - 1)
            return ('[x%sfor x in %s%sif x %% 2]' % (self.ws(), a[0],
                                                     self.ws()),
                    '[x for x in %s if x %% 2]' % a[1])
        if k == 5:
            a = self.lst(d - 1)
            return 'sorted(%s)' % a[0], 'sorted(%s)' % a[1]
        if k == 6:
            a = self.lst(d - 1)
            return 'list(y for y in %s)' % a[0], 'list(y for y in %s)' % a[1]
        a = r.randint(0, 4)
        return 'list(range(%d))' % a, 'list(range(%d))' % a

    def st(self, d=1):
        r = self.r
        k = r.randint(0, 7 if d else 2)
        if k <= 1:
            return self.var(r.choice(self.strs + ['S1', 'S2']))
        if k == 2:
            v = r.choice(['a', "b'c", 'x"y', '#if', '$N1', '##', 'end', ' ',
                          'é', '\\', '\n', '#', ':', '%s', '}', ')', 'else if',
                          'elif', 'in', '='])
            return repr(v), repr(v)
        if k == 3:
            a, b = self.st(d - 1), self.st(d - 1)
            return '(%s + %s)' % (a[0], b[0]), '(%s + %s)' % (a[1], b[1])
        if k == 4:
            a = self.num(d - 1)
            return "('<%%d>' %% %s)" % a[0], "('<%%d>' %% %s)" % a[1]
        if k == 5:
            a = self.num(d - 1)
            return 'str(%s)' % a[0], 'str(%s)' % a[1]
        if k == 6:
            a = self.st(d - 1)
            return "%s[:2]" % self.brk(a[0]), "%s[:2]" % self.brk(a[1])
        d1 = self.num(0)
        return ("{'a': %s, 'b': 'z'}['b']" % d1[0],
                "{'a': %s, 'b': 'z'}['b']" % d1[1])

    @staticmethod
    def brk(s):
        return '(' + s + ')'

    def cond(self, d=2):
        r = self.r
        k = r.randint(0, 7 if d else 1)
        if k <= 1:
            op = r.choice(['==', '!=', '<', '<=', '>', '>='])
            a, b = self.num(0), self.num(0)
            sp = r.choice([' ', ''])
            return a[0] + sp + op + sp + b[0], a[1] + op + b[1]
        if k == 2:
            return self.num(d - 1)
        if k == 3:
            op = r.choice(['and', 'or'])
            a, b = self.cond(d - 1), self.cond(d - 1)
            return ('(%s) %s (%s)' % (a[0], op, b[0]),
                    '(%s) %s (%s)' % (a[1], op, b[1]))
        if k == 4:
            a = self.cond(d - 1)
            return 'not (%s)' % a[0], 'not (%s)' % a[1]
        if k == 5:
            op = r.choice(['in', 'not in'])
            a, b = self.num(0), self.lst(d - 1)
            return '%s %s %s' % (a[0], op, b[0]), '%s %s %s' % (a[1], op, b[1])
        if k == 6:
            if r.random() < .3:  # words of the language inside a string
                w = r.choice(['else if', 'elif', 'x else if y', 'else  if',
                              ' then ', 'not in', 'unless', ': ', 'if x:',
                              '#end if', 'end', '=='])
                n = len(w) + r.choice([0, 0, 1])
                return ('len(%r) == %d' % (w, n),) * 2
            a, b = self.st(d - 1), self.st(d - 1)
            return '%s == %s' % (a[0], b[0]), '%s == %s' % (a[1], b[1])
        a = self.num(d - 1)
        return '(%s)%s2 > 0' % (a[0], r.choice([' % ', '%'])), \
            '(%s) %% 2 > 0' % a[1]

    # --------------------------------------------------------- statements
    def text(self, s):
        self.P('out.append(%r)' % s)

    def put(self, pexpr):
        self.P('put(out, %s)' % pexpr)

    def s_text(self):
        r = self.r
        t = r.choice(['alpha', 'b "q"', "it's", 'x\\y', 'a: b', '<p>', 'é',
                      '100%', 'end if', 'if x:', '{}', 'a # b'])
        if r.random() < .6:
            e = r.choice([self.num, self.st, self.lst])(1)
            if e[0].startswith('$') and r.random() < .5 and \
                    not e[0].endswith(("'", ' ')):
                ph = e[0]
                tail = r.choice([' z', '', ', q', ' (1)'])
            elif e[0].startswith('$'):
                ph = '${' + e[0][1:] + '}'
                tail = r.choice(['z', '', '(1)', '[2]', '.b'])
            elif e[0][0].isalpha() or e[0][0] in '_{':
                ph = '${(' + e[0] + ')}'
                tail = ''
            else:
                ph = '${' + e[0] + '}'
                tail = r.choice(['z', '', '(1)', '.b'])
            self.text(t + ' ')
            self.put(e[1])
            self.c.append(t + ' ' + ph + tail + self.eol)
            self.text(tail + self.eol)
        else:
            self.c.append(t + self.eol)
            self.text(t + self.eol)

    def s_echo(self):
        e = self.r.choice([self.num, self.st])(2)
        self.C('#echo ' + e[0])
        self.put(e[1])

    def s_silent(self):
        e = self.num(2)
        self.C('#silent ' + e[0])
        self.P(e[1])

    def s_psp(self):
        if self.r.random() < .5:
            e = self.num(0)
            self.c.append('<%%= %s %%>' % e[1].replace('N', 'N') + self.eol) \
                if e[1] in self.ints else self.c.append('<%= 3 %>' + self.eol)
            self.put(e[1] if e[1] in self.ints else '3')
            self.text(self.eol)
        else:
            v = self.new(self.r.choice(['p', 'end', 'ENDv']))
            self.c.append('<%% %s = 5 * 2 %%>' % v + self.eol)
            self.P('%s = 5 * 2' % v)
            self.text(self.eol)
            self.ints.append(v)

    def s_set(self):
        r = self.r
        k = r.randint(0, 12)
        d = r.choice(['$', '$', ''])
        sp = r.choice([' = ', '=', '  =  '])
        if k <= 2:
            v = r.choice(self.ints) if self.ints and r.random() < .5 \
                else self.new(r.choice(['v', 'v', 'local_v', 'globalv',
                                        'modulev', 'set_v', 'iff']))
            e = self.num(2)
            self.C('#set %s%s%s%s' % (d, v, sp, e[0]))
            self.P('%s = %s' % (v, e[1]))
            if v not in self.ints:
                self.ints.append(v)
        elif k == 3 and self.ints:
            v = r.choice(self.ints)
            op = r.choice(['+=', '-=', '*=', '|=', '&=', '^='])
            e = self.num(1)
            self.C('#set %s%s %s %s' % (d, v, op, e[0]))
            self.P('%s %s %s' % (v, op, e[1]))
        elif k == 4:
            v = self.new('s')
            e = self.st(2)
            self.C('#set %s%s%s%s' % (d, v, sp, e[0]))
            self.P('%s = %s' % (v, e[1]))
            self.strs.append(v)
        elif k == 5:
            v = self.new('l')
            e = self.lst(2)
            self.C('#set %s%s%s%s' % (d, v, sp, e[0]))
            self.P('%s = list(%s)' % (v, e[1]))
            self.c[-1] = self.c[-1].replace(e[0], 'list(%s)' % e[0], 1)
            self.lists.append(v)
        elif k == 6 and self.lists:
            v = r.choice(self.lists)
            e = self.num(1)
            self.C('#set %s%s[0:0] = [%s]' % (d, v, e[0]))
            self.P('%s[0:0] = [%s]' % (v, e[1]))
        elif k == 7:
            a, b = self.new('v'), self.new('v')
            e, f = self.num(1), self.num(1)
            lhs = r.choice(['%s, %s', '(%s, %s)', '[%s, %s]', '%s,%s'])
            self.C('#set %s%s(%s, %s)' % (lhs % (d + a, d + b), sp, e[0],
                                          f[0]))
            self.P('%s, %s = (%s, %s)' % (a, b, e[1], f[1]))
            self.ints += [a, b]
        elif k == 8:
            v = self.new('d')
            e = self.num(1)
            self.C("#set %s%s%s{'k': %s, 'j': [1, 2]}" % (d, v, sp, e[0]))
            self.P("%s = {'k': %s, 'j': [1, 2]}" % (v, e[1]))
            self.dicts.append(v)
        elif k == 9 and self.dicts:
            v = r.choice(self.dicts)
            e = self.num(1)
            key = r.choice(["'k'", "'n'", '"q=r"', "'a#b'"])
            self.C('#set %s%s[%s] = %s' % (d, v, key, e[0]))
            self.P('%s[%s] = %s' % (v, key, e[1]))
        elif k == 10:
            v = self.new('o')
            self.C('#set %s%s = $MK()' % (d, v))
            self.P('%s = MK()' % v)
            self.objs.append(v)
        elif k == 11 and self.objs:
            v = r.choice(self.objs)
            e = self.num(1)
            op = r.choice(['=', '+=', '-='])
            self.C('#set %s%s.val %s %s' % (d, v, op, e[0]))
            self.P('%s.val %s %s' % (v, op, e[1]))
        elif self.dicts:
            v = r.choice(self.dicts)
            self.C("#set %s%s['j'][1] += 2" % (d, v))
            self.P("%s['j'][1] += 2" % v)
        else:
            return self.s_text()

    def s_del(self):
        if self.dicts and self.r.random() < .6:
            v = self.r.choice(self.dicts)
            self.C("#set $%s['tmp'] = 1" % v)
            self.C("#del %s%s['tmp']" % (self.r.choice(['', '$']), v))
            self.P("%s['tmp'] = 1" % v)
            self.P("del %s['tmp']" % v)
        elif self.lists:
            v = self.r.choice(self.lists)
            self.C('#del %s%s[:1]' % (self.r.choice(['', '$']), v))
            self.P('del %s[:1]' % v)
        else:
            self.s_text()

    def guard(self, fn):
        """conditional statement: names bound inside are not used outside"""
        saved = [list(x) for x in (self.ints, self.strs, self.lists,
                                   self.dicts, self.objs)]
        fn()
        self.ints, self.strs, self.lists, self.dicts, self.objs = saved

    def end(self, what):
        self.C('#end ' + what)

    def s_if(self):
        r = self.r
        c = self.cond(2)
        kw = r.choice(['if', 'if', 'unless'])
        self.C('#%s %s%s' % (kw, c[0], r.choice(['', ':'])))
        self.P(('if %s:' if kw == 'if' else 'if not (%s):') % c[1])
        self.guard(self.body)
        if kw == 'if':
            for _ in range(r.choice([0, 0, 1, 2])):
                c = self.cond(1)
                self.C('#%s %s%s' % (r.choice(['elif', 'else if', 'else  if']),
                                     c[0], r.choice(['', ':'])))
                self.P('elif %s:' % c[1])
                self.guard(self.body)
            if r.random() < .5:
                self.C('#else' + r.choice(['', ':']))
                self.P('else:')
                self.guard(self.body)
        self.end(kw)

    def s_for(self):
        r = self.r
        k = r.randint(0, 4)
        if k <= 1:
            v = self.new('i')
            e = self.lst(1)
            self.C('#for $%s in %s%s' % (v, e[0], r.choice(['', ':'])))
            self.P('for %s in list(%s):' % (v, e[1]))
            if e[0].startswith('$'):
                # iterate over a copy on both sides
                self.c[-1] = self.c[-1].replace(' in ' + e[0],
                                                ' in list(%s)' % e[0], 1)
            names = [v]
        elif k == 2:
            a, b, c = self.new('i'), self.new('i'), self.new('i')
            f = r.choice(['$%s, ($%s, $%s)', '($%s, ($%s, $%s))',
                          '%s, (%s, %s)'])
            self.C('#for %s in enumerate($PAIRS)' % (f % (a, b, c)))
            self.P('for %s, (%s, %s) in enumerate(PAIRS):' % (a, b, c))
            names = [a, b, c]
        elif k == 3:
            a = self.new('i')
            b = self.new('i')
            self.C('#for $%s, $%s in zip($L1, $L2)' % (a, b))
            self.P('for %s, %s in zip(L1, L2):' % (a, b))
            names = [a, b]
        else:
            v = self.new('i')
            n = self.num(0)
            self.C('#for %s in range(%s)' % (v, n[0]))
            self.P('for %s in range(%s):' % (v, n[1]))
            names = [v]
        self.loop += 1

        def fn():
            self.ints += names
            self.body()
        self.guard(fn)
        self.loop -= 1
        if r.random() < .15:
            self.C('#else')
            self.P('else:')
            self.guard(self.body)
        self.end('for')

    def s_while(self):
        v = self.new('w')
        n = self.r.randint(0, 3)
        self.C('#set $%s = 0' % v)
        self.P('%s = 0' % v)
        self.C('#while $%s < %d' % (v, n))
        self.P('while %s < %d:' % (v, n))
        self.C('#set $%s += 1' % v)
        self.depth += 1
        self.P('%s += 1' % v)
        self.depth -= 1
        self.loop += 1
        self.guard(self.body)
        self.loop -= 1
        if self.r.random() < .15:
            self.C('#else')
            self.P('else:')
            self.guard(self.body)
        self.end('while')

    def s_repeat(self):
        n = self.num(1) if self.r.random() < .3 else \
            (str(self.r.randint(0, 3)),) * 2
        v = self.new('_r')
        self.C('#repeat ' + n[0])
        self.P('for %s in range(%s):' % (v, n[1]))
        self.loop += 1
        self.guard(self.body)
        self.loop -= 1
        self.end('repeat')

    def leave(self, stmt):
        """a conditional jump"""
        c = self.cond(1)
        self.C('#if ' + c[0])
        self.P('if %s:' % c[1])
        self.depth += 1
        stmt()
        self.depth -= 1
        self.end('if')

    def s_brk(self):
        if not self.loop:
            return self.s_text()
        kw = self.r.choice(['break', 'continue'])

        def j():
            self.C('#' + kw)
            self.P(kw)
        self.leave(j)

    def s_stop(self):
        def j():
            self.C('#stop')
            self.P("return ''.join(out)")
        self.leave(j)

    def s_return(self):
        if not self.indef:
            return self.s_text()
        e = self.r.choice([self.num, self.st, self.lst])(1)

        def j():
            self.C('#return ' + e[0])
            self.P('return ' + e[1])
        self.leave(j)

    def s_raise(self):
        r = self.r
        exc = r.choice(['ValueError', 'KeyError', 'IndexError'])
        k = r.randint(0, 2)
        m = self.num(0)

        def j():
            if k == 0:
                self.C('#raise %s(%s)' % (exc, m[0]))
                self.P('raise %s(%s)' % (exc, m[1]))
            elif k == 1:
                self.C("#silent $RAISE('%s')" % exc)
                self.P("RAISE('%s')" % exc)
            else:
                self.c.append("$RAISE('%s')" % exc + self.eol)
                self.put("RAISE('%s')" % exc)
                self.text(self.eol)
        if r.random() < .25:
            self.leave(j)
        else:
            j()
            # nothing reachable after it, which Python accepts

    def s_assert(self):
        c = self.cond(1)
        if self.r.random() < .6:
            self.C('#assert (%s) or True' % c[0])
            self.P('assert (%s) or True' % c[1])
        else:
            self.C("#assert %s, 'msg'" % c[0])
            self.P("assert %s, 'msg'" % c[1])

    def s_pass(self):
        self.C('#pass')
        self.P('pass')

    def s_try(self):
        r = self.r
        self.C('#try' + r.choice(['', ':']))
        self.P('try:')

        def fn():
            self.body()
            if r.random() < .7:
                self.depth += 1
                self.s_raise()
                self.depth -= 1
        self.guard(fn)
        exc = r.random() < .8
        if exc:
            for _ in range(r.choice([0, 1, 1, 2])):
                e = r.choice(['ValueError', 'KeyError', '(KeyError, IndexError)',
                              'AssertionError', 'Exception'])
                if r.random() < .4:
                    v = self.new('e')
                    self.C('#except %s as %s%s' % (e, '', v))
                    self.P('except %s as %s:' % (e, v))
                    self.c.append('${type(%s).__name__}' % ('$' + v)
                                  + self.eol)
                    self.c[-1] = '${(type($%s).__name__)}' % v + self.eol
                    self.depth += 1
                    self.put('type(%s).__name__' % v)
                    self.text(self.eol)
                    self.depth -= 1
                    self.guard(self.body)
                else:
                    self.C('#except %s%s' % (e, r.choice(['', ':'])))
                    self.P('except %s:' % e)
                    self.guard(self.body)
                    if r.random() < .15:
                        self.C('#raise')
                        self.depth += 1
                        self.P('raise')
                        self.depth -= 1
            else:
                if r.random() < .5 or True:
                    self.C('#except')
                    self.P('except Exception:')
                    self.c[-1] = self.c[-1].replace('#except',
                                                    '#except Exception')
                    self.guard(self.body)
            if r.random() < .3:
                self.C('#else')
                self.P('else:')
                self.guard(self.body)
        if not exc or r.random() < .3:
            self.C('#finally')
            self.P('finally:')
            lp, self.loop = self.loop, 0
            self.infinally += 1
            self.guard(self.body)
            self.infinally -= 1
            self.loop = lp
        self.end('try')

    def s_call(self):
        if not self.meths or self.indef:
            return self.s_text()
        n, sig = self.r.choice(self.meths)
        args = [self.num(1) for _ in range(sig)]
        kw = ''
        kwp = ''
        if sig and self.r.random() < .4:
            e = self.num(1)
            kw, kwp = ', dflt=' + e[0], ', dflt=' + e[1]
        self.c.append('[$%s(%s%s)]' % (n, ', '.join(a[0] for a in args), kw)
                      + self.eol)
        self.text('[')
        self.put('%s(%s%s)' % (n, ', '.join(a[1] for a in args), kwp))
        self.text(']' + self.eol)

    W = dict(text=6, echo=1, silent=1, psp=.4, set=4, **{'del': .4}, **{
        'if': 2, 'for': 1.4, 'while': .5, 'repeat': .5, 'brk': 1, 'stop': .12,
        'return': .4, 'raise': .1, 'assert': .2, 'pass': .2, 'try': 1.1,
        'call': .8})

    def block(self):
        n = self.r.randint(1, 4) if self.budget > 0 else 1
        for _ in range(n):
            self.stmt()

    def stmt(self):
        self.budget -= 1
        names = list(self.W)
        if self.depth >= self.maxdepth or self.budget <= 0:
            names = ['text', 'echo', 'silent', 'set', 'brk', 'pass', 'raise']
        if self.infinally:
            names = [n for n in names if n not in ('stop', 'return')]
        k = self.r.choices(names, [self.W[n] for n in names])[0]
        self.note(k)
        getattr(self, 's_' + k)()

    def method(self):
        n = self.new('meth')
        sig = self.r.randint(0, 2)
        names = [self.new('a') for _ in range(sig)]
        dfl = (self.r.choice(['3', '(-1)', 'len([1, 2])', '1 + 1', '2 if 3 '
                              'else 4', '(1, 2)[0]', "len('=#,)')"]),) * 2
        ps = list(names) + (['dflt=%s' % dfl[0]] if sig else [])
        pp = list(names) + (['dflt=%s' % dfl[1]] if sig else [])
        pre = self.r.choice(['', '$'])
        self.C('#def %s%s%s' % (pre, n, '(%s)' % ', '.join(
            self.r.choice(['', '$']) + x for x in ps) if sig or
            self.r.random() < .5 else ''))
        self.P('def %s(%s):' % (n, ', '.join(pp)))
        self.depth += 1
        self.P('out = []')
        self.depth -= 1
        self.indef = True
        save = self.loop, (self.ints, self.strs, self.lists, self.dicts,
                           self.objs)
        self.loop = 0
        self.ints, self.strs, self.lists, self.dicts, self.objs = \
            list(names) + (['dflt'] if sig else []), [], [], [], []
        self.body()
        self.depth += 1
        self.P("return ''.join(out)")
        self.depth -= 1
        self.loop, (self.ints, self.strs, self.lists, self.dicts,
                    self.objs) = save
        self.indef = False
        self.end('def')
        self.meths.append((n, sig))

    def program(self):
        self.P('out = []')
        for _ in range(self.r.choice([0, 0, 1, 2])):
            self.method()
        for _ in range(self.r.randint(2, 6)):
            self.stmt()
        self.c.append('~' + self.eof)
        self.text('~' + self.eof)
        self.P("return ''.join(out)")
        return ''.join(self.c), 'def main():\n' + '\n'.join(self.p) + '\n'


class Val(object):
    def __init__(self):
        self.val = 4


def data(rng):
    spec = ([rng.randint(-2, 5) for _ in range(3)],
            [rng.choice(['', 'a', 'zé', '<>', 'else if']) for _ in range(2)],
            [[rng.randint(0, 5) for _ in range(rng.randint(0, 3))]
             for _ in range(2)])

    def factory():
        log = []

        def T(tag, v):
            log.append((tag, repr(v)))
            return v

        def ADD(a, b):
            log.append(('add', a, b))
            return a + b

        def RAISE(kind):
            log.append(('raise', kind))
            raise {'ValueError': ValueError, 'KeyError': KeyError,
                   'IndexError': IndexError}[kind]('made')
        ns = {'T': T, 'ADD': ADD, 'RAISE': RAISE, 'MK': Val, 'O': Val(),
              'PAIRS': [(1, 2), (3, 4)]}
        for i, v in enumerate(spec[0]):
            ns['N%d' % (i + 1)] = v
        for i, v in enumerate(spec[1]):
            ns['S%d' % (i + 1)] = v
        for i, v in enumerate(spec[2]):
            ns['L%d' % (i + 1)] = list(v)
        return ns, log
    return factory


def put(out, v):
    if v is not None:
        out.append(str(v))


def run_python(src, ns):
    g = dict(ns)
    g['put'] = put
    exec(compile(src, '<reference>', 'exec'), g)
    return g['main']()
