#!/usr/bin/env python3
"""isa_cc.py TARGET -c ASMDIR -o OUT.o
Assembles (and where possible links) the switch primitives of one target of boost.context and turns them into an object file that
carries a listing of the machine code: one line per instruction as the disassembler sees it, the data sections and the symbols.
sim/isa_world.cpp executes that listing on a stand-in processor."""
import sys, os, re, struct, subprocess, tempfile, shutil

TEXT, EXIT, TAIL = 0x100000, 0x180000, 0x190000
# name: (file suffix, triple, flags, how to resolve references, disassembler flags)
T = {}


def t(name, suf, triple, flags=(), mode='elf', dis=()):
    T[name] = (suf, triple, list(flags), mode, list(dis))


t('x86_64_elf', 'x86_64_sysv_elf_gas.S', 'x86_64-linux-gnu')
t('x86_64_elf_guard', 'x86_64_sysv_elf_gas.S', 'x86_64-linux-gnu', ['-DBOOST_CONTEXT_TLS_STACK_PROTECTOR'])
t('x86_64_elf_shstk', 'x86_64_sysv_elf_gas.S', 'x86_64-linux-gnu', ['-fcf-protection=full', '-DSHADOW_STACK_SYSCALL=1'])
t('x86_64_elf_shstk_guard', 'x86_64_sysv_elf_gas.S', 'x86_64-linux-gnu', ['-fcf-protection=full', '-DSHADOW_STACK_SYSCALL=1', '-DBOOST_CONTEXT_TLS_STACK_PROTECTOR'])
t('x86_64_macho', 'x86_64_sysv_macho_gas.S', 'x86_64-apple-darwin', mode='obj')
t('x86_64_pe', 'x86_64_ms_pe_clang_gas.S', 'x86_64-pc-windows-gnu', mode='obj')
t('x86_64_pe_gas', 'x86_64_ms_pe_gas.asm', 'x86_64-pc-windows-gnu', mode='obj')
t('i386_elf', 'i386_sysv_elf_gas.S', 'i386-linux-gnu')
t('i386_elf_guard', 'i386_sysv_elf_gas.S', 'i386-linux-gnu', ['-DBOOST_CONTEXT_TLS_STACK_PROTECTOR'])
t('i386_macho', 'i386_sysv_macho_gas.S', 'i386-apple-darwin', mode='obj')
t('i386_pe', 'i386_ms_pe_clang_gas.S', 'i386-pc-windows-gnu', mode='obj')
t('i386_pe_gas', 'i386_ms_pe_gas.asm', 'i386-pc-windows-gnu', mode='obj')
t('x86_64_pe_masm', 'x86_64_ms_pe_masm.asm', 'x86_64-pc-windows-gnu', mode='masm')
t('i386_pe_masm', 'i386_ms_pe_masm.asm', 'i386-pc-windows-gnu', mode='masm')
t('arm64_elf', 'arm64_aapcs_elf_gas.S', 'aarch64-linux-gnu')
t('arm64_pe_armasm', 'arm64_aapcs_pe_armasm.asm', 'aarch64-pc-windows-msvc', mode='armasm')
t('arm64_macho', 'arm64_aapcs_macho_gas.S', 'arm64-apple-darwin', mode='obj')
t('arm64_pe', 'arm64_aapcs_pe_armclang.S', 'aarch64-pc-windows-msvc', mode='obj')
ARM = ['--mcpu=cortex-a15']
t('arm_elf', 'arm_aapcs_elf_gas.S', 'armv7-linux-gnueabihf', dis=ARM)
t('arm_elf_soft', 'arm_aapcs_elf_gas.S', 'armv7-linux-gnueabi', ['-mfloat-abi=soft', '-D__SOFTFP__'], dis=ARM)
t('arm_macho', 'arm_aapcs_macho_gas.S', 'armv7-apple-ios', mode='obj', dis=ARM)
t('riscv64', 'riscv64_sysv_elf_gas.S', 'riscv64-linux-gnu', ['-march=rv64gc'])
t('loongarch64', 'loongarch64_sysv_elf_gas.S', 'loongarch64-linux-gnu')
t('mips32', 'mips32_o32_elf_gas.S', 'mips-linux-gnu', ['-fPIC'])
t('mips32el', 'mips32_o32_elf_gas.S', 'mipsel-linux-gnu', ['-fPIC'])
t('mips64', 'mips64_n64_elf_gas.S', 'mips64-linux-gnuabi64', ['-fPIC'])
t('mips64el', 'mips64_n64_elf_gas.S', 'mips64el-linux-gnuabi64', ['-fPIC'])
t('ppc32_linux', 'ppc32_sysv_elf_gas.S', 'powerpc-linux-gnu')
t('ppc32_bsd', 'ppc32_sysv_elf_gas.S', 'powerpc-unknown-freebsd')
t('ppc64_v2', 'ppc64_sysv_elf_gas.S', 'powerpc64le-linux-gnu')
t('ppc64_v1', 'ppc64_sysv_elf_gas.S', 'powerpc64-linux-gnu', ['-mabi=elfv1', '-mno-altivec'], mode='obj')
t('ppc64_v1_vec', 'ppc64_sysv_elf_gas.S', 'powerpc64-linux-gnu', ['-mabi=elfv1', '-maltivec'], mode='obj')
t('s390x', 's390x_sysv_elf_gas.S', 's390x-linux-gnu', ['-march=z10'])
t('sparc64', 'sparc64_sysv_elf_gas.S', 'sparc64-linux-gnu')


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode:
        sys.exit('%s\n%s' % (' '.join(cmd), p.stdout + p.stderr))
    return p.stdout


def elf_data(path):
    """(address, bytes) of the allocated data sections"""
    b = open(path, 'rb').read()
    six, le = b[4] == 2, b[5] == 1
    e = '<' if le else '>'
    if six:
        shoff, = struct.unpack_from(e + 'Q', b, 40)
        shes, shn = struct.unpack_from(e + 'HH', b, 58)
    else:
        shoff, = struct.unpack_from(e + 'I', b, 32)
        shes, shn = struct.unpack_from(e + 'HH', b, 46)
    res = []
    for i in range(shn):
        o = shoff + i * shes
        if six:
            _, ty, fl, ad, of, sz = struct.unpack_from(e + 'IIQQQQ', b, o)
        else:
            _, ty, fl, ad, of, sz = struct.unpack_from(e + 'IIIIII', b, o)
        if ty == 1 and fl & 2 and not fl & 4 and sz:
            res.append((ad, b[of:of + sz]))
    return res


def masm(src, six):
    """MASM to GNU syntax: only what these files use"""
    out = ['.intel_syntax noprefix', '.text']
    for line in open(src):
        l = line.split(';')[0].rstrip()
        s = l.strip()
        if not s:
            continue
        m = re.match(r'(\w+)\s+PROC\b', s)
        if m:
            out += ['.globl ' + m.group(1), m.group(1) + ':']
            continue
        if s.startswith('IFDEF') or s.startswith('IFNDEF'):
            k, v = s.split()
            out.append(('.ifdef ' if k == 'IFDEF' else '.ifndef ') + v)
            continue
        if s in ('ELSE', 'ENDIF'):
            out.append('.' + s.lower())
            continue
        if re.match(r'(\.[36]86|\.XMM|\.MODEL|\.code|\w+\s+PROTO\b|\.endprolog|EXTERN|PUBLIC|END\b|ASSUME|\w+\s+ENDP)', s, re.I):
            continue
        if not re.match(r'\w+:?$|[a-z]+\b', s):
            sys.exit('masm line not understood: ' + s)
        s = re.sub(r'\b([0-9][0-9a-fA-F]*)[hH]\b', lambda m: '0x' + m.group(1), s)
        s = re.sub(r'\b(fs|gs):\[(0x[0-9a-f]+)\]', r'\1:\2', s)
        if six:
            s = re.sub(r'(lea\s+\w+),\s*([a-zA-Z_]\w*)$', r'\1, \2[rip]', s)
        else:
            s = re.sub(r'(lea\s+\w+),\s*([a-zA-Z_]\w*)$', r'\1, \2', s)
            s = re.sub(r'(mov\s+\w+),\s*(trampoline|finish)$', r'\1, offset \2', s)
        s = re.sub(r'\boffset\s+(\w+)', r'offset \1', s, flags=re.I)
        if re.match(r'(movaps|movdqa|movups|stmxcsr|ldmxcsr|fnstcw|fldcw)\b', s):
            s = re.sub(r'\b(xmmword|dword|word|tbyte)\s+ptr\s+', '', s, flags=re.I)
        out.append('    ' + s)
    return '\n'.join(out) + '\n'


def armasm(src):
    """the syntax of Microsoft's assembler for ARM64 to GNU syntax"""
    out = ['.text']
    for line in open(src):
        s = line.split(';')[0].rstrip()
        if not s.strip():
            continue
        m = re.match(r'(\w+)(\s+PROC\b.*)?$', s, re.I)
        if m:
            out += ['.globl ' + m.group(1)] if m.group(2) else []
            out += [m.group(1) + ':']
            continue
        s = s.strip()
        if re.match(r'(AREA|EXPORT|IMPORT|ENDP|END|ALIGN)\b', s):
            continue
        out.append('    ' + s.replace('~0xF', '#~0xF').replace('##', '#'))
    return '\n'.join(out) + '\n'


def main():
    a = sys.argv[1:]
    name, asmdir, out = a[0], a[a.index('-c') + 1], a[a.index('-o') + 1]
    suf, triple, flags, mode, dis = T[name]
    d = tempfile.mkdtemp(prefix='isa')
    try:
        objs = {}
        for f in ('make', 'jump', 'ontop'):
            src, o = os.path.join(asmdir, f + '_' + suf), os.path.join(d, f + '.o')
            if mode in ('masm', 'armasm'):
                s2 = os.path.join(d, f + '.s')
                open(s2, 'w').write(armasm(src) if mode == 'armasm' else masm(src, 'x86_64' in name))
                run(['clang', '--target=' + triple, '-c', s2, '-o', o])
            else:
                run(['clang', '--target=' + triple] + flags + ['-x', 'assembler-with-cpp', '-c', src, '-o', o])
            objs[f] = o
        L = ['target ' + name]
        od = ['llvm-objdump', '-d', '--no-show-raw-insn'] + dis

        def listing(text, base, rel=None):
            # returns instruction lines; rel: symbol table of this object for relocations
            ins = []
            for l in text.split('\n'):
                m = re.match(r'\s*([0-9a-f]+):\s+(\S.*)$', l)
                if m and re.match(r'(R_|IMAGE_REL|X86_64_RELOC|GENERIC_RELOC|ARM)', m.group(2)) and '\t' in m.group(2):
                    kind, sym = m.group(2).split('\t')[:2]
                    if not ins or rel is None:
                        continue
                    p = ins[-1]
                    sy = re.split(r'[+-]0x', sym)[0].strip()
                    if sy in ('_exit', '__exit') or sy.endswith('_exit'):
                        p[3] = hex(EXIT - base)
                    elif 'SECTDIFF' in kind or kind.startswith(('R_PPC64_TOC', 'R_PPC64_REL16')):
                        pass
                    elif sy in rel:
                        ad = rel[sy] + base
                        if p[2].startswith('lea'):
                            p[3] = '%#x, %s' % (ad, p[3].split('),')[1].strip() if '),' in p[3] else p[3].split(',')[1].strip())
                        elif p[2].startswith('mov') and p[3].startswith('$'):
                            p[3] = '$%#x, %s' % (ad, p[3].split(',')[1].strip())
                        else:
                            p[3] = hex(ad - base)
                    else:
                        sys.exit('relocation not understood: ' + l)
                    continue
                if m:
                    body = re.split(r'\s+(?:#|##|//|@|;)\s', m.group(2).replace('\t', ' '))[0].strip()
                    body = re.sub(r'\s*<[^>]*>', '', body) if body != '<unknown>' else 'unknown'
                    q = body.split(None, 1)
                    ins.append([int(m.group(1), 16) + base, base, q[0], q[1] if len(q) > 1 else ''])
            return ins
        ins = []
        if mode == 'elf':
            ex = os.path.join(d, 'a.out')
            run(['lld', '-flavor', 'gnu', '-e', 'make_fcontext', '--defsym=_exit=%#x' % EXIT, '--defsym=ontop_fcontext_tail=%#x' % TAIL, '-Ttext=%#x' % TEXT, '-o', ex] + [objs[f] for f in ('make', 'jump', 'ontop')])
            ins = listing(run(od + [ex]), 0)
            for ad, by in elf_data(ex):
                L.append('seg %x %s' % (ad, by.hex()))
            syms = run(['llvm-nm', ex])
            for l in syms.split('\n'):
                q = l.split()
                if len(q) == 3 and re.fullmatch(r'(make|jump|ontop)_fcontext|_gp|\.TOC\.', q[2]):
                    L.append('sym %s %s' % (q[2], q[0]))
        else:
            base = TEXT
            for f in ('make', 'jump', 'ontop'):
                sy = {}
                for l in run(['llvm-nm', objs[f]]).split('\n'):
                    q = l.split()
                    if len(q) == 3 and q[1].lower() == 't':
                        sy[q[2]] = int(q[0], 16)
                    elif len(q) == 3 and q[1] == 'D' and q[2] == f + '_fcontext':
                        sy.setdefault('.L.' + q[2], 0)          # a function descriptor: the code starts the text section
                # labels the symbol table leaves out
                txt = run(od + ['-r', objs[f]])
                for m in re.finditer(r'^([0-9a-f]+) <([^>]+)>:', txt, re.M):
                    sy.setdefault(m.group(2), int(m.group(1), 16))
                k = listing(txt, base, sy)
                ins += k
                st = [sy[x] for x in ('.' + f + '_fcontext', '.L.' + f + '_fcontext', f + '_fcontext', '_' + f + '_fcontext') if x in sy]
                if not st:
                    sys.exit('no entry point of ' + f)
                L.append('sym %s_fcontext %x' % (f, base + st[0]))
                base += 0x1000
        for i in ins:
            L.append('ins %x %x %s %s' % (i[0], i[1], i[2], i[3]))
        c = os.path.join(d, 'l.c')
        with open(c, 'w') as fh:
            fh.write('const char isa_listing[] =\n' + '\n'.join('"%s\\n"' % l.replace('\\', '\\\\').replace('"', '\\"') for l in L) + ';\n')
        run(['gcc', '-c', c, '-o', out])
        if os.environ.get('ISA_SHOW'):
            print('\n'.join(L))
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    main()
