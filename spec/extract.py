#!/usr/bin/env python3
"""One-off extractor: wire layout of the replay types -> spec/protocol.json.
Run once on the pristine tree; the result is committed and FROZEN.  No check runs this."""
import re, json, sys

def blocks(src):
    """top-level items of a module body: (kind, name, bodytext)"""
    out = {}
    for m in re.finditer(r'^    pub (struct|enum) (\w+) ?(\{\}|\{)', src, re.M):
        kind, name = m.group(1), m.group(2)
        if m.group(3) == '{}':
            body = ''
        else:
            e = src.index('\n    }\n', m.end())
            body = src[m.end():e]
        im = re.search(r'^    impl %s \{\n(.*?)^    \}\n' % name, src, re.M | re.S)
        out[name] = (kind, body, im.group(1) if im else '')
    return out

def fns(impl):
    d = {}
    for m in re.finditer(r'^        pub fn (\w+)\((.*?)^        \}\n', impl, re.M | re.S):
        t = m.group(0)
        t = re.sub(r'tracing::\w+!\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\);', '', t)
        t = re.sub(r'//[^\n]*', '', t)
        t = re.sub(r'\s+', ' ', t)
        d[m.group(1)] = t
    return d

class X:
    def __init__(self, src, bits):
        self.items = blocks(src); self.bits = bits
    def fail(self, what): raise Exception(what)
    def inner(self, body, ret):
        """type of the value parsed by a field fn body"""
        b = body[body.index('{', body.index('->')):] if '->' in body else body
        if self.bits: return self.inner_bits(b)
        return self.inner_bytes(b, ret)
    def inner_bits(self, b):
        m = re.search(r'is_provided\) ?: ?\(\(&\[u8\], usize\), bool\) = parse_bool\(\w+\)\?; let \(tail, \w+\) = if is_provided \{ (.*?) \} else \{ \(tail, None\) \};', b)
        if m: return {'k':'opt','t':self.inner_bits('{ '+m.group(1)+' }')}
        m = re.search(r'is_provided\) ?: ?\(\(&\[u8\], usize\), bool\) = parse_bool\(\w+\)\?; if is_provided \{ let \(tail, res\) = (\w+)::parse\(tail\)', b)
        if m: return {'k':'opt','t':{'k':'ref','n':m.group(1)}}
        m = re.search(r'^\{ let \(tail, \w+\) = take_fourcc', b)
        if m: return {'k':'fourccv'}
        m = re.search(r'let \(mut tail, array_length\) = (take_n_bits_into_i64\(\w+, (\d+)\)|parse_packed_int\(\w+, (-?\d+), (\w+)\))\?;(.*?)for _ in 0\.\.array_length \{ (.*?) \}', b)
        if m:
            if m.group(2): bits, off = int(m.group(2)), 0
            else:
                off = int(m.group(3)); n = m.group(4)
                bits = int(n.replace('usize','')) if n[0].isdigit() else int(re.search(r'let %s: usize = (\d+);' % n, b).group(1))
            e = m.group(6)
            m2 = re.search(r'let \(new_tail, data\) = (\w+)::parse\(tail\)\?;', e)
            if m2: return {'k':'arr','lenbits':bits,'lenoff':off,'e':{'k':'ref','n':m2.group(1)}}
            if 'take_unaligned_byte' in e: return {'k':'arr','lenbits':bits,'lenoff':off,'e':{'k':'ubyte'}}
            self.fail('arr '+b)
        m = re.search(r'str_size_num_bits: usize = (\d+); let \(tail, str_size\) = parse_packed_int\(input, (-?\d+), str_size_num_bits\)\?; let \(tail, _\) = byte_align\(tail\)\?; let \(tail, value\) = take_bit_array', b)
        if m: return {'k':'blob','lenbits':int(m.group(1)),'lenoff':int(m.group(2))}
        m = re.search(r'byte_align\(input\)\?; let num_bits: usize = (\d+) \* 8; let \(tail, value\) = take_bit_array', b)
        if m: return {'k':'fixblob','n':int(m.group(1))}
        m = re.search(r'bitarray_length_bits: usize = (\d+); let \(tail, bitarray_length\) = take_n_bits_into_i64\(input, bitarray_length_bits\)\?; let \(tail, value\) = (\w+)', b)
        if m: return {'k':'bitarr64' if m.group(2)=='take_n_bits_into_i64' else 'bitarrvec','lenbits':int(m.group(1))}
        m = re.search(r'let offset: i64 = (-?\d+); let num_bits: usize = (\d+); let \(tail, \w+\) = parse_packed_int\(input, offset, num_bits\)\?;', b)
        if m: return {'k':'int','off':int(m.group(1)),'bits':int(m.group(2))}
        m = re.search(r'^\{ let \(tail, \w+\) = parse_packed_int\(\w+, (-?\d+), (\d+)usize\)\?;', b) or re.search(r'^\{ let \(tail, \w+\) = parse_packed_int\(\w+, (-?\d+), (\d+)usize\)\?;', b)
        if m: return {'k':'int','off':int(m.group(1)),'bits':int(m.group(2))}
        m = re.search(r'^\{ let \(tail, \w+\) = parse_bool\(\w+\)\?;', b)
        if m: return {'k':'bool'}
        m = re.search(r'^\{ let \(tail, \w+\) = (\w+)::parse\(\w+\)\?;', b)
        if m: return {'k':'ref','n':m.group(1)}
        m = re.search(r'^\{ let \(tail, \w+\) = take_null', b)
        if m: return {'k':'null'}
        self.fail('inner_bits: '+b)
    def inner_bytes(self, b, rty):
        m = re.search(r'validate_opt_tag\(\w+\)\?; let \(tail, is_provided\) = nom::number::complete::u8\(tail\)\?; let \(tail, \w+\) = if is_provided != 0 \{ (.*) \} else \{ \(tail, None\) \}; (.*)$', b)
        if m:
            it = re.sub(r'^Option<(.*)>$', r'\1', rty)
            return {'k':'opt','t':self.inner_bytes('{ '+m.group(1)+' }', it)}
        m = re.search(r'validate_array_tag\(\w+\)\?;.*for _ in 0\.\.array_length \{ (.*?) \}', b)
        if m:
            it = re.sub(r'^Vec<(.*)>$', r'\1', rty) if rty else ''
            e = m.group(1)
            m2 = re.search(r'let \(new_tail, data\) = (\w+)::parse\(tail\)', e)
            if m2: return {'k':'arr','e':{'k':'ref','n':m2.group(1)}}
            if 'tagged_vlq_int' in e: return {'k':'arr','e':{'k':'vint','ty':it}}
            if 'tagged_blob' in e: return {'k':'arr','e':{'k':'tblob'}}
            self.fail('barr '+b)
        if re.search(r'tagged_fourcc', b): return {'k':'fourcc'}
        if re.search(r'tagged_blob', b): return {'k':'tblob'}
        if re.search(r'tagged_bool', b): return {'k':'tbool'}
        if re.search(r'tagged_vlq_int', b): 
            assert rty in ('u8','u32','i32','i64','u64','u16','i8','i16'), (rty,b)
            # the conversion really used
            c = re.search(r'(\w+|<_>)::try_from\(', b)
            assert (c is None and rty=='i64') or (c and c.group(1) in (rty,'<_>')), (rty,b)
            return {'k':'vint','ty':rty}
        m = re.search(r'let \(tail, \w+\) = (\w+)::parse\(\w+\)\?;', b)
        if m: return {'k':'ref','n':m.group(1)}
        self.fail('inner_bytes: '+b)
    def item(self, name):
        kind, body, impl = self.items[name]
        f = fns(impl)
        if kind == 'enum':
            p = f['parse']
            payload = {}
            for m in re.finditer(r'^        (\w+)(\(\s*(.*?),?\s*\))?,', body, re.M | re.S):
                payload[m.group(1)] = m.group(3)
            vs = []
            for m in re.finditer(r'(\d+) => \{((?:(?! \d+ => ).)*?)Ok\(\( ?tail, Self::(\w+)((?:(?! \d+ => ).)*?),? ?\)\) \}', p):
                tag, pre, vn = int(m.group(1)), m.group(2), m.group(3)
                if payload[vn] is None: t = None
                else:
                    pre = '{ ' + pre.strip() + ' }'
                    if self.bits: t = self.inner_bits(pre)
                    else:
                        t = self.inner_bytes(pre + m.group(4), payload[vn]) 
                vs.append([tag, vn, t])
            assert len(vs) == len(payload), (name, vs, payload)
            r = {'k':'enum','v':vs}
            if self.bits:
                m = re.search(r'num_bits: usize = (\d+);', p); r['bits'] = int(m.group(1))
            else:
                r['choice'] = 'validate_choice_tag' in p
            return r
        fields = re.findall(r'^        pub (\w+): (.*?),(?:\s*//.*)?$', body, re.M)
        p = f['parse']
        if [x[0] for x in fields] == ['value'] and 'parse_value' not in f:
            t = self.inner(p, None if self.bits else fields[0][1])
            return {'k':'newtype','t':t}
        fs = []
        if self.bits:
            for n, ty in fields:
                fs.append([n, self.inner(f['parse_'+n], ty)])
            # order must be the decl order
            order = re.findall(r'Self::parse_(\w+)\(tail\)', p)
            if not order: # plain x/y structs
                pass
            assert order == [x[0] for x in fs], (name, order, fs)
            return {'k':'struct','f':fs}
        tags = {m.group(2): int(m.group(1)) for m in re.finditer(r'(\d+) => \{ if (?:let Some\(None\) = )?(\w+)(?:\.is_none\(\))? \{', p)}
        for n, ty in fields:
            d = 'req'
            if ('let Some(None) = %s {' % n) in p: d = 'opt'
            m = re.search(r'%s: %s\.unwrap_or\((.*?)\)[,.]' % (n, n), p)
            if m: d = 'default'
            mm = re.search(r'\b%s: (ok_or_return_missing_field_err!\( ?%s ?\)|.*?),' % (n, n), p[p.rindex('Self {'):])
            fs.append([n, self.inner(f['parse_'+n], ty), tags[n], d])
        return {'k':'struct','f':fs}

def module(src, name):
    s = src.index('pub mod %s {' % name)
    e = src.index('\n}\n', s)
    return src[s:e+1]

out = {}
src = open('/repo/src/versions/protocol87702/mod.rs').read()
for mod, bits in (('byte_aligned', False), ('bit_packed', True)):
    x = X(module(src, mod), bits)
    o = {}
    for n in x.items:
        try: o[n] = x.item(n)
        except Exception as ex: print('FAIL', mod, n, repr(ex)[:300])
    out['87702_'+mod] = o
src = open('/repo/src/versions/protocol75689/mod.rs').read()
x = X(module(src, 'bit_packed'), True)
o = {}
for n in x.items:
    try: o[n] = x.item(n)
    except Exception as ex: print('FAIL', '75689', n, repr(ex)[:300])
out['75689_bit_packed'] = o
json.dump(out, open(sys.argv[1] if len(sys.argv) > 1 else '/verif/spec/protocol.json','w'), indent=None, separators=(',',':'))
print({k:len(v) for k,v in out.items()})
