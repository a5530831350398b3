"""Build configurations of the simulators and the campaigns that decide each property."""
WRAPS = 'malloc free calloc realloc posix_memalign aligned_alloc memalign valloc mmap mmap64 munmap mprotect getcontext'.split()


def wl(names):
    return ['-Wl,' + ','.join('--wrap=' + n for n in names), '-Wl,-z,now', '-lpthread']


LIBDEF = ['-DBOOST_CONTEXT_NO_LIB=', '-DBOOST_CONTEXT_STATIC_LINK=', '-DBOOST_CONTEXT_EXPORT=', '-DNDEBUG', '-I@REPO/include', '-I@SIM']
DBGDEF = [x for x in LIBDEF if x != '-DNDEBUG']       # assertions of the library active
SIMFL = ['-O2', '-g1', '-std=c++17', '-I@SIM']
CORE = [dict(src='@SIM/core.cpp', flags=SIMFL, dep='sim'), dict(src='@SIM/env.cpp', flags=SIMFL, dep='sim'), dict(src='@SIM/env_asm.S', flags=[], cc='gcc', dep='sim')]
SEG = ['-DBOOST_USE_UCONTEXT', '-DBOOST_USE_SEGMENTED_STACKS', '-fsplit-stack', '-fcf-protection=none']
GUARD = ['-DSIM_GUARD', '-DBOOST_CONTEXT_TLS_STACK_PROTECTOR', '-fno-stack-protector']


def lib_units(std, impl, ucontext):
    fl = ['-O2', '-g1', std] + LIBDEF + impl + ['-DBOOST_CONTEXT_SOURCE']
    us = [dict(src='@REPO/src/posix/stack_traits.cpp', flags=fl, dep='repo')]
    if ucontext:
        us += [dict(src='@REPO/src/fiber.cpp', flags=fl, dep='repo'), dict(src='@REPO/src/continuation.cpp', flags=fl, dep='repo')]
    else:
        us += [dict(src='@REPO/src/fcontext.cpp', flags=fl, dep='repo')]
        us += [dict(src='@REPO/src/asm/%s_x86_64_sysv_elf_gas.S' % a, flags=['-x', 'assembler-with-cpp'] + impl, cc='gcc', dep='repo') for a in ('make', 'jump', 'ontop')]
    return us


def api(which, std, impl=(), ucontext=False, extra_units=(), link=(), opt='-O2', lib_impl=None, dbg=False):
    impl = list(impl)
    fl = [opt, '-g1', std, '-w'] + (DBGDEF if dbg else LIBDEF) + impl + ['-DAPI_FIBER' if which == 'F' else '-DAPI_CALLCC']
    return dict(units=CORE + [dict(src='@SIM/api_world.cpp', flags=fl, dep='repo', cost=9)] + lib_units(std, impl if lib_impl is None else list(lib_impl), ucontext) + list(extra_units),
                link=list(link) + wl(WRAPS))


def seg(d):
    d['units'] = [dict(u, flags=SIMFL + ['-DSIM_SEGMENTED']) if u['src'] == '@SIM/env.cpp' else u for u in d['units']]
    d['link'] = d['link'] + ['-Wl,--wrap=syscall,--wrap=__splitstack_makecontext,--wrap=__splitstack_releasecontext']
    return d


def clang(d):
    d['units'] = [dict(u, cc='clang++') if u['dep'] == 'repo' and u['src'].endswith('.cpp') else u for u in d['units']]
    return d


CONFIGS = {}
for w in 'FC':
    CONFIGS[w + '17'] = api(w, '-std=c++17')
    CONFIGS[w + '11'] = api(w, '-std=c++11')
    CONFIGS[w + 'U17'] = api(w, '-std=c++17', ['-DBOOST_USE_UCONTEXT'], True)
    CONFIGS[w + 'U11'] = api(w, '-std=c++11', ['-DBOOST_USE_UCONTEXT'], True)
    CONFIGS[w + 'S17'] = seg(api(w, '-std=c++17', SEG, True, link=['-fsplit-stack', '-fuse-ld=gold']))
    CONFIGS[w + 'D17'] = api(w, '-std=c++17', opt='-O0', dbg=True)
    CONFIGS[w + 'UD17'] = api(w, '-std=c++17', ['-DBOOST_USE_UCONTEXT'], True, opt='-O0', dbg=True)
    CONFIGS[w + 'L17'] = clang(api(w, '-std=c++17'))
    CONFIGS[w + 'UL17'] = clang(api(w, '-std=c++17', ['-DBOOST_USE_UCONTEXT'], True))
    CONFIGS[w + '20'] = api(w, '-std=c++20', opt='-O3')
    CONFIGS[w + 'U20'] = api(w, '-std=c++20', ['-DBOOST_USE_UCONTEXT'], True, opt='-O3')
    CONFIGS[w + 'UL20'] = clang(api(w, '-std=c++20', ['-DBOOST_USE_UCONTEXT'], True, opt='-O3'))
    CONFIGS[w + 'L20'] = clang(api(w, '-std=c++20', opt='-O3'))
    CONFIGS[w + 'SD17'] = seg(api(w, '-std=c++17', SEG, True, link=['-fsplit-stack', '-fuse-ld=gold'], opt='-O0', dbg=True))
    CONFIGS[w + 'G17'] = api(w, '-std=c++17', GUARD)
    CONFIGS[w + 'S11'] = seg(api(w, '-std=c++11', SEG, True, link=['-fsplit-stack', '-fuse-ld=gold']))
    for n in ('17', '11'):
        CONFIGS[w + 'UM' + n] = api(w, '-std=c++' + n, ['-DBOOST_USE_UCONTEXT', '-include', '@SIM/other_os.hpp'], True)


def raw(impl=()):
    impl = list(impl)
    fl = ['-O2', '-g1', '-std=c++17', '-w', '-fno-stack-protector'] + LIBDEF + impl
    return dict(units=CORE + [dict(src='@SIM/raw_world.cpp', flags=fl, dep='repo', cost=3), dict(src='@SIM/raw_asm.S', flags=[], cc='gcc', dep='sim')] + lib_units('-std=c++17', impl + ['-fno-stack-protector'], False),
                link=wl(WRAPS + ['_exit']))


CONFIGS['raw'] = raw()
CONFIGS['rawG'] = raw(GUARD)

def world(src, impl=(), wraps=(), std='-std=c++17', ucontext=False, opt=('-O2',)):
    impl = list(impl)
    fl = list(opt) + ['-g1', std, '-w'] + LIBDEF + impl
    return dict(units=CORE + [dict(src='@SIM/' + src, flags=fl, dep='repo', cost=5)] + lib_units(std, impl, ucontext), link=wl(WRAPS + list(wraps)))


CONFIGS['alloc'] = world('alloc_world.cpp', wraps=['sysconf', 'getpagesize', 'getauxval'])
CONFIGS['allocM'] = world('alloc_world.cpp', ['-DBOOST_CONTEXT_USE_MAP_STACK'], wraps=['sysconf', 'getpagesize', 'getauxval'])
CONFIGS['allocO'] = world('alloc_world.cpp', ['-DSIM_OWN_TRAITS'], wraps=['sysconf', 'getpagesize', 'getauxval'])
CONFIGS['allocOM'] = world('alloc_world.cpp', ['-DSIM_OWN_TRAITS', '-DBOOST_CONTEXT_USE_MAP_STACK'], wraps=['sysconf', 'getpagesize', 'getauxval'])
CONFIGS['alloc11'] = world('alloc_world.cpp', wraps=['sysconf', 'getpagesize', 'getauxval'], std='-std=c++11')



def san(which, std, kind):
    d = api(which, std, ['-DBOOST_USE_UCONTEXT', '-DSIM_SAN', '-DBOOST_USE_' + kind], True)
    d['units'] = d['units'] + [dict(src='@SIM/san_stub.cpp', flags=SIMFL + ['-w', '-DBOOST_USE_' + kind], dep='sim')]
    d['link'] = d['link'] + ['-Wl,--wrap=swapcontext,--wrap=setcontext']
    return d


CONFIGS['FAsan'] = san('F', '-std=c++17', 'ASAN')
CONFIGS['CAsan'] = san('C', '-std=c++17', 'ASAN')
CONFIGS['FTsan'] = san('F', '-std=c++17', 'TSAN')
CONFIGS['FAsan11'] = san('F', '-std=c++11', 'ASAN')
CONFIGS['CAsan11'] = san('C', '-std=c++11', 'ASAN')
CONFIGS['FTsan11'] = san('F', '-std=c++11', 'TSAN')



def vg(d):
    d['units'] = [dict(u, flags=u['flags'] + ['-DBOOST_USE_VALGRIND']) if u['dep'] == 'repo' else u for u in d['units']] + [dict(src='@SIM/vg_stub.cpp', flags=SIMFL, dep='sim')]
    return d


CONFIGS['FV17'] = vg(api('F', '-std=c++17'))
CONFIGS['CUV17'] = vg(api('C', '-std=c++17', ['-DBOOST_USE_UCONTEXT'], True))
CONFIGS['CV11'] = vg(api('C', '-std=c++11'))
CONFIGS['allocV'] = vg(world('alloc_world.cpp', wraps=['sysconf', 'getpagesize', 'getauxval']))
CONFIGS['allocVM'] = vg(world('alloc_world.cpp', ['-DBOOST_CONTEXT_USE_MAP_STACK'], wraps=['sysconf', 'getpagesize', 'getauxval']))



SHS = ['-fcf-protection=full', '-DSHADOW_STACK_SYSCALL=1', '-DSIM_SHS']


def shs(d):
    for u in d['units']:
        if u['src'].endswith('_gas.S'):
            u['flags'] = u['flags'] + ['-include', '@SIM/shs_mac.inc']
    d['units'] = d['units'] + [dict(src='@SIM/shs_stub.cpp', flags=SIMFL, dep='sim')]
    d['link'] = d['link'] + ['-Wl,--wrap=syscall']
    return d


for w in 'FC':
    CONFIGS[w + 'H17'] = shs(api(w, '-std=c++17', SHS))
    CONFIGS[w + 'H11'] = shs(api(w, '-std=c++11', SHS))
    CONFIGS[w + 'HD17'] = shs(api(w, '-std=c++17', SHS, opt='-O0', dbg=True))


def win(d):
    fl = ['-DBOOST_USE_WINFIB', '-I@SIM/win']
    d['units'] = [dict(u, flags=u['flags'] + fl) if u['dep'] == 'repo' else u for u in d['units']] + [dict(src='@SIM/win_stub.cpp', flags=SIMFL + ['-w'], dep='sim')]
    return d


for w in 'FC':
    CONFIGS[w + 'W20'] = win(api(w, '-std=c++20', ucontext=True, opt='-O3'))
    CONFIGS[w + 'W17'] = win(api(w, '-std=c++17', ucontext=True))
    CONFIGS[w + 'W11'] = win(api(w, '-std=c++11', ['-D_WIN32_WINNT=0x0601'], ucontext=True))
    CONFIGS[w + 'WD17'] = win(api(w, '-std=c++17', ucontext=True, opt='-O0', dbg=True))

CONFIGS['allocW'] = world('alloc_world.cpp', wraps=['sysconf', 'getpagesize', 'getauxval'])
CONFIGS['allocW']['units'] = [dict(u, flags=u['flags'] + ['-DBOOST_WINDOWS', '-I@SIM/win'], src=u['src'].replace('/posix/', '/windows/')) if u['dep'] == 'repo' else u for u in CONFIGS['allocW']['units']] + [dict(src='@SIM/win_stub.cpp', flags=SIMFL + ['-w'], dep='sim')]

TWRAPS = WRAPS + ['pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', 'pthread_once', 'getrlimit', 'getrlimit64', 'prlimit', 'prlimit64', 'sysconf', 'getpagesize', 'getauxval']


def thr(impl=(), std='-std=c++17', ucontext=False):
    impl = list(impl)
    fl = ['-O2', '-g1', std, '-w', '-fsanitize=thread', '-I@SIM'] + LIBDEF + impl
    us = [dict(src='@SIM/thr_rt.cpp', flags=SIMFL, dep='sim'), dict(src='@SIM/thr_world.cpp', flags=SIMFL + ['-w'], dep='sim'), dict(src='@SIM/thr_ops.cpp', flags=fl, dep='repo', cost=5)]
    lib = [dict(u, flags=u['flags'] + ['-fsanitize=thread', '-w']) if u['src'].endswith('.cpp') else u for u in lib_units(std, impl, ucontext)]
    return dict(units=CORE + us + lib, link=wl(TWRAPS))


CONFIGS['thr'] = thr()
CONFIGS['thr11'] = thr(std='-std=c++11')
CONFIGS['thrC'] = thr(['-DTHR_CALLCC'])
CONFIGS['thrM'] = thr(['-DBOOST_CONTEXT_USE_MAP_STACK'])
CONFIGS['thrU'] = thr(['-DBOOST_USE_UCONTEXT'], ucontext=True)
CONFIGS['thrCU'] = thr(['-DBOOST_USE_UCONTEXT', '-DTHR_CALLCC'], ucontext=True)

CONFIGS['thrW'] = thr()
CONFIGS['thrW']['units'] = [dict(u, flags=u['flags'] + ['-DBOOST_WINDOWS', '-I@SIM/win'], src=u['src'].replace('/posix/', '/windows/')) if u['dep'] == 'repo' and not u['src'].endswith('.S') else dict(u, flags=u['flags'] + ['-DSIM_WINTRAITS']) if u['src'].endswith('thr_world.cpp') else u for u in CONFIGS['thrW']['units']] + [dict(src='@SIM/win_stub.cpp', flags=SIMFL + ['-w'], dep='sim')]

# the switch primitives of the other platforms: assembled for, and executed by, a stand-in processor
ISA = ('x86_64_elf x86_64_elf_guard x86_64_elf_shstk x86_64_elf_shstk_guard x86_64_macho x86_64_pe_gas x86_64_pe_masm x86_64_pe i386_elf i386_elf_guard i386_macho i386_pe i386_pe_gas i386_pe_masm '
       'arm64_elf arm64_macho arm64_pe arm64_pe_armasm arm_elf arm_elf_soft arm_macho riscv64 loongarch64 mips32 mips32el mips64 mips64el '
       'ppc32_linux ppc32_bsd ppc64_v1 ppc64_v1_vec ppc64_v2 s390x sparc64').split()
ISAU = [CORE[0]] + [dict(src='@SIM/' + f, flags=SIMFL, dep='sim') for f in ('isa_cpu.cpp', 'isa_world.cpp')]
for t in ISA:
    CONFIGS['isa_' + t] = dict(units=ISAU + [dict(src='@REPO/src/asm', flags=['@SIM/isa_cc.py', t], cc='python3', dep='repo')], link=[])
ISAS = ['isa_' + t for t in ISA]

MAINS = ['F17', 'C17', 'FU17', 'CU17']
OLDS = ['F11', 'C11', 'FU11', 'CU11']
SEGS = ['FS17', 'CS17']


def J(cfgs, knobs, n):
    if isinstance(cfgs, str):
        cfgs = [cfgs]
    return [dict(cfg=c, knobs=knobs, n=n) for c in cfgs]


MIX = 'p_work=8'
CAMPAIGNS = {}
C = CAMPAIGNS
C['C01'] = J(MAINS, 'p_work=4,w_resume=50,maxlive=12', 3000) + J(MAINS, 'threads=3,maxlive=10', 1500) + J(SEGS, MIX, 1200) + J(OLDS, MIX, 800) + J('raw', '', 1500)
C['C02'] = J(MAINS, 'w_deep=8,w_push=14,p_work=8', 3000) + J(MAINS, 'threads=2,w_deep=6', 1200) + J(SEGS, 'w_deep=6', 1200) + J(OLDS, MIX, 600) + J('raw', '', 2500)
C['C03'] = J(MAINS, 'w_fp=25', 3000) + J(MAINS, 'w_fp=20,threads=3,p_work=6', 1500) + J(SEGS, 'w_fp=20', 1200) + J(['raw', 'rawG'], '', 2000) + J(OLDS, 'w_fp=25', 500)
C['C04'] = J(MAINS, 'w_handle=30,w_drop=10', 3500) + J(OLDS, 'w_handle=30,w_drop=10', 1200) + J(SEGS, 'w_handle=20', 1000) + J(MAINS, 'w_handle=20,p_work=10,threads=2', 1000) + J(MAINS, 'w_handle=30,threads=3,w_yield=16,w_spawn=8', 1500)
C['C05'] = J(MAINS, 'w_term=20,w_create=20,maxlive=14', 3500) + J(MAINS, 'w_term=16,w_create=16,threads=3', 1500) + J(SEGS, 'w_term=20,w_create=20', 1200) + J(OLDS, 'w_term=20,w_create=20', 800)
C['C06'] = J(MAINS, 'w_drop=16,w_hold=12,w_push=14,p_work=10', 3500) + J(MAINS, 'w_drop=12,w_hold=8,threads=2', 1200) + J(SEGS, 'w_drop=16,w_hold=10,w_push=12', 1200) + J(OLDS, 'w_drop=16,w_hold=12,p_work=6', 800)
C['C07'] = J(['F17', 'FU17'], 'w_create=24,w_drop=16,w_with=20,maxlive=12', 4500) + J(['F17', 'FU17'], 'w_create=20,w_drop=10,w_with=16,threads=3,maxlive=10', 1500) + J(['F11', 'FU11', 'FS17'], 'w_create=24,w_drop=16,w_with=20', 1500) + J(['C17', 'CU17'], 'w_create=20,w_with=20', 800)
C['C08'] = J(MAINS, 'w_create=20,w_drop=12,w_term=10,maxlive=12', 3000) + J(MAINS, 'p_fault_create=150,w_create=20', 1200) + J(MAINS, 'threads=3,w_drop=10', 1000) + J(SEGS, 'w_create=16,w_drop=12', 1000) + J(OLDS, 'w_create=20,w_drop=12', 600) + J(MAINS, 'w_escape=20', 600)
C['C09'] = J(MAINS, 'w_create=24,w_drop=10,w_term=12', 3200) + J(OLDS, 'w_create=24,w_drop=10', 1500) + J(SEGS, 'w_create=20', 1000) + J(MAINS, 'w_create=16,threads=3', 800)
C['C10'] = J(MAINS, 'w_with=30,p_work=6', 3500) + J(MAINS, 'w_with=24,threads=3', 1200) + J(OLDS, 'w_with=30', 1200) + J(SEGS, 'w_with=24', 1000)
C['C11'] = J(MAINS, 'w_with=30,ikinds=376,w_push=14', 3500) + J(MAINS, 'w_with=24,ikinds=378,w_push=12,p_work=10', 1200) + J(OLDS, 'w_with=30,ikinds=376', 1000) + J(SEGS, 'w_with=30,ikinds=376', 1000)
C['C12'] = J(MAINS, 'w_escape=30', 3500) + J(MAINS, 'w_throw=24,w_push=16,p_work=8', 2000) + J(OLDS, 'w_escape=30', 1000) + J(SEGS, 'w_escape=20,w_throw=10', 1200) + J(MAINS, 'w_escape=20,threads=3', 1000)
C['C13'] = J(MAINS, 'threads=3,w_yield=16,w_spawn=8,w_texit=8', 3500) + J(MAINS, 'threads=3,w_yield=12,w_spawn=6,w_texit=8,w_drop=10,w_with=16,p_work=6', 1500) + J(SEGS, 'threads=3,w_yield=16,w_spawn=6,w_texit=6', 1500) + J(OLDS, 'threads=3,w_yield=12', 700)
C['C13'] += J(['thr', 'thrC', 'thrU', 'thrCU'], 'fibers=70,ops=30', 2500)
C['C14'] = J(MAINS, 'p_fault_create=350,w_create=24,w_drop=8', 3500) + J(OLDS, 'p_fault_create=350,w_create=24', 1500) + J(SEGS, 'p_fault_create=350,w_create=20', 1000) + J(MAINS, 'p_fault_create=250,w_create=20,threads=2,p_work=8', 1000)
C['C15'] = J(MAINS, 'p_fault_with=400,w_with=30', 3500) + J(OLDS, 'p_fault_with=400,w_with=30', 1500) + J(SEGS, 'p_fault_with=400,w_with=30', 1000) + J(MAINS, 'p_fault_with=300,w_with=24,threads=2,p_work=8', 1000)
ALLOCS = ['alloc', 'allocM', 'alloc11']
C['C16'] = J(ALLOCS, 'w_prot=3,p_overflow=60', 6000) + J(ALLOCS, 'w_prot=3,p_fault=300', 5000) + J(MAINS, 'allocs=8,w_create=16,p_fault_create=100', 800) + J('alloc', 'steps=400,w_prot=2', 1200)
C['C17'] = J(ALLOCS, '', 6000) + J(ALLOCS, 'p_fault=250', 5000) + J(ALLOCS, 'w_pool=3,p_fault=60,steps=200', 3000) + J(MAINS, 'allocs=28,w_create=20,w_term=12,maxlive=14', 800) + J('alloc', 'steps=600', 1000)
THRS = ['thr', 'thrC', 'thrU', 'thrCU', 'thrM', 'thr11']
C['C18'] = J(THRS, '', 5000) + J(THRS, 'fibers=30,ops=20', 2000) + J(THRS, 'ops=5', 3000) + J('thr', 'mode=1,ops=8', 5000) + J(ALLOCS, 'w_pool=3', 2500) + J(ALLOCS, 'w_pool=3,p_fault=60,steps=200', 800) + J(MAINS, 'allocs=16,threads=3,w_create=20,w_drop=10,w_spawn=4,w_texit=6', 700)
C['C21'] = J(THRS + ['thrW'], 'traits=100', 5000) + J(THRS, 'traits=100,ops=3', 4000) + J(THRS + ['thrW'], 'traits=50,fibers=20', 2000)
C['C19'] = J(MAINS, 'w_create=24,allocs=34', 3500) + J(MAINS, 'w_create=20', 1500) + J(OLDS, 'w_create=24,allocs=34', 1000) + J('raw', '', 3000)
C['C20'] = J(SEGS, 'w_deep=12', 3500) + J(SEGS, 'w_deep=8,deepmul=6', 700) + J(SEGS, 'threads=3,w_deep=6,w_drop=8', 1500) + J(SEGS, 'p_fault_create=150,w_create=20,w_deep=6', 800) + J(SEGS, 'w_with=20,w_deep=6,p_work=8', 1000)
C['C22'] = J('raw', '', 20000) + J('raw', 'maxlive=20,p_exit=60', 6000) + J('rawG', '', 4000) + J('raw', 'steps=400,maxlive=30', 3000)
C['C23'] = [dict(diff=['F17', 'F11', 'FU17', 'FU11', 'FS17'], knobs=k, n=n) for k, n in ((MIX, 1600), ('threads=3,p_work=4', 700), ('w_with=24,w_drop=10,p_work=8', 1000), ('w_escape=10,w_throw=10', 500), ('late=50,w_exit=3,threads=2', 500))] + \
           [dict(diff=['C17', 'C11', 'CU17', 'CU11', 'CS17'], knobs=k, n=n) for k, n in ((MIX, 1600), ('threads=3,p_work=4', 700), ('w_with=24,w_drop=10,p_work=8', 1000), ('w_escape=10,w_throw=10', 500), ('late=50,w_exit=3,threads=2', 500))]
C['C24'] = J('rawG', '', 12000) + J('rawG', 'p_step=60', 1500) + J(['FG17', 'CG17'], 'w_fp=20,p_work=6', 4000) + J(['FG17', 'CG17'], 'w_fp=20,threads=3', 1500)
C['C25'] = J('raw', 'p_step=250', 5000) + J('rawG', 'p_step=250', 2500) + J(MAINS, 'p_step=80,p_work=6', 2000) + J(OLDS, 'p_step=60', 400)
SANS = ['FAsan', 'CAsan', 'FTsan', 'FAsan11', 'CAsan11', 'FTsan11']
C['C27'] = J(SANS, 'w_drop=12,w_term=12,w_with=16,p_work=10', 3500) + J(SANS, 'threads=3,w_drop=10,w_with=10', 2000) + J(SANS, 'p_fault_create=200,w_create=20,w_escape=10', 1500) + J(SANS, 'p_fault_with=300,w_with=24', 1000)
C['C26'] = J(MAINS, 'p_work=45,w_drop=10,w_push=16,w_hold=8', 3500) + J(MAINS, 'p_work=30,w_throw=10,w_with=16,w_push=14', 1500) + J(OLDS, 'p_work=40,w_drop=10', 800) + J(SEGS, 'p_work=40,w_drop=10', 1200) + J(MAINS, 'p_work=30,threads=2', 700)

C['C30'] = J(MAINS, 'late=60,threads=3,w_texit=8,w_spawn=6,w_yield=8', 2500) + J(MAINS, 'late=40,w_exit=4,p_work=10,w_with=12,w_drop=10', 3000) + J(MAINS, 'late=40,w_exit=3,threads=3,warm=0', 1500) + J(OLDS, 'late=50,w_exit=3,threads=2', 1500) + J(SEGS, 'late=50,w_exit=3,threads=2,w_deep=4', 1500) + J(['FAsan', 'CAsan', 'FTsan'], 'late=60,threads=2,w_exit=2', 1200)
VGS = ['FV17', 'CUV17', 'CV11']
C['C31'] = J(['allocV', 'allocVM'], '', 4000) + J(['allocV', 'allocVM'], 'p_fault=250', 4000) + J(['allocV', 'allocVM'], 'w_pool=3,p_fault=60,steps=200', 2000) + J(VGS, 'allocs=20,w_create=20,w_term=12,maxlive=14', 2500) + J(VGS, 'allocs=20,threads=3,w_create=20', 1500) + J(VGS, 'allocs=20,w_create=24,p_fault_create=300', 2500)
WINS, WIND = ['FW17', 'CW17', 'FW11', 'CW11'], ['FWD17', 'CWD17']
C['C32'] = J(WINS, '', 2500) + J(WINS, 'w_drop=16,w_hold=12,w_push=14,p_work=10', 2500) + J(WINS, 'w_with=30,p_work=6', 2000) + J(WINS, 'w_with=30,ikinds=376,w_push=14', 1500) + J(WINS, 'p_fault_create=350,w_create=24,w_drop=8', 2500) + J(WINS, 'p_fault_with=400,w_with=30', 2500)
C['C32'] += J(WINS, 'threads=3,w_yield=12,w_spawn=6,w_texit=8,w_drop=10,w_with=16', 2000) + J(WINS, 'w_escape=25,w_throw=12,w_push=12', 1500) + J(WINS, 'w_handle=30,w_drop=10', 1000) + J(WINS, 'steps=3000', 150) + J(WIND, 'w_drop=12,w_with=16,p_work=10', 1000) + J(WIND, 'p_fault_create=250,w_create=20', 700)
C['C16'] += J(['allocO', 'allocOM'], 'w_prot=3,p_overflow=60', 2000) + J(['allocO', 'allocOM'], 'w_prot=3,p_fault=200', 1500)
C['C17'] += J(['allocO', 'allocOM'], '', 2500) + J(['allocO', 'allocOM'], 'p_fault=200', 1500) + J(['allocO', 'allocOM'], 'w_pool=3,p_fault=60,steps=200', 1500)
C['C16'] += J('allocW', 'w_prot=3,p_overflow=60', 3000) + J('allocW', 'w_prot=3,p_fault=300', 3000)
C['C30'] += J(WINS, 'late=60,threads=3,w_texit=8,w_spawn=6,w_yield=8', 800) + J(WINS, 'late=40,w_exit=4,p_work=10,w_with=12,w_drop=10', 800)
C['C13'] += J(MAINS, 'late=40,threads=3,w_yield=16,w_spawn=8,w_texit=8', 1000)

SHSS, SHSD = ['FH17', 'CH17', 'FH11', 'CH11'], ['FHD17', 'CHD17']
C['C33'] = J(SHSS, '', 4000) + J(SHSS, 'p_fault_create=350,w_create=24,w_drop=8', 4000) + J(SHSS, 'w_create=24,allocs=34,w_term=12,maxlive=14', 3000) + J(SHSS, 'threads=3,w_yield=12,w_spawn=6,w_texit=8,w_drop=10,w_with=16', 3000) + \
           J(SHSS, 'w_escape=25,w_throw=12,w_push=12', 2000) + J(SHSS, 'w_drop=16,w_hold=12,w_push=14,p_work=10', 2500) + J(SHSS, 'late=40,w_exit=4,p_work=10,w_with=12,w_drop=10', 1500) + J(SHSS, 'steps=3000', 150) + J(SHSD, 'w_drop=12,w_with=16,p_work=10', 2500) + \
           J(['isa_x86_64_elf_shstk', 'isa_x86_64_elf_shstk_guard'], '', 12000) + J(['isa_x86_64_elf_shstk', 'isa_x86_64_elf_shstk_guard'], 'p_int=900,maxlive=8,steps=150', 2500)

C['C29'] = J(ISAS, '', 3500) + J(ISAS, 'p_int=900,maxlive=8,steps=150', 500) + J(ISAS, 'p_int=0,steps=400', 200) + J(ISAS, 'odd=0', 400)

# the branches for other systems in the ucontext implementation, and segmented stacks in C++11
UMS = ['FUM17', 'CUM17', 'FUM11', 'CUM11']
for _p, _k in (('C01', 'p_work=4,w_resume=50'), ('C05', 'w_term=16,w_create=20'), ('C07', 'w_create=24,w_drop=16,w_with=20'), ('C08', 'w_create=20,w_drop=12,p_fault_create=80'), ('C14', 'p_fault_create=350,w_create=24'), ('C19', 'w_create=24,allocs=34')):
    C[_p] += J(UMS, _k, 500)
C['C20'] += J(['FS11', 'CS11'], 'w_deep=12', 1500) + J(['FS11', 'CS11'], 'threads=3,w_deep=6,w_drop=8,w_with=12', 1000)
C['C20'] += J(['FSD17', 'CSD17'], 'w_deep=12,p_work=8', 700)
C['C32'] += J(['FW20', 'CW20'], 'w_drop=12,w_with=16,p_work=10', 1000)
C['C23'] += [dict(diff=[w + 'U17', w + 'UM17', w + 'UM11', w + 'S11'], knobs=k, n=400) for w in 'FC' for k in ('w_with=20,w_drop=8,p_work=8', 'threads=3,p_work=4')]

for _j in C['C23']:      # when the function object of a finished context is destroyed is the implementation's business
    _j['knobs'] = ','.join(filter(None, [_j['knobs'], 'fnkeep=0']))

# long histories, other compilers, optimisation levels and language versions, and the library's own assertions
FOCUS = {'C01': 'p_work=4,w_resume=50', 'C02': 'w_deep=8,w_push=14,p_work=8', 'C03': 'w_fp=25', 'C04': 'w_handle=30,w_drop=10', 'C05': 'w_term=12,w_create=12,maxlive=14',
         'C06': 'w_drop=12,w_hold=12,w_push=14,w_create=14,p_work=10', 'C07': 'w_create=24,w_drop=12,w_with=20,maxlive=12', 'C08': 'w_create=20,w_drop=8,w_term=8,maxlive=12', 'C09': 'w_create=24,w_drop=10,w_term=12',
         'C10': 'w_with=30,p_work=6', 'C11': 'w_with=30,ikinds=376,w_push=14', 'C12': 'w_throw=24,w_push=16,p_work=8', 'C13': 'threads=3,w_yield=16,w_spawn=8,w_texit=8',
         'C14': 'p_fault_create=300,w_create=24', 'C15': 'p_fault_with=300,w_with=30', 'C19': 'w_create=24,allocs=34', 'C26': 'p_work=45,w_drop=10,w_push=16,w_hold=8', 'C30': 'late=50,w_exit=2,threads=2'}
XD = [['FD17', 'CUD17'], ['CD17', 'FUD17']]
XL = [['FL17', 'CUL17'], ['CL17', 'FUL17'], ['F20', 'CU20'], ['C20', 'FU20'], ['FL20', 'CUL20'], ['CL20', 'FUL20']]
for _i, _p in enumerate(sorted(FOCUS)):
    C[_p] = [dict(j, n=j['n'] * 2) for j in C[_p]]
    C[_p] += J(MAINS, FOCUS[_p] + ',steps=3000', 150) + J(MAINS, FOCUS[_p] + ',steps=4000,w_term=1,w_drop=1,w_create=3,w_escape=0,maxlive=4', 60)
    C[_p] += J(XD[_i % 2], FOCUS[_p], 700) + J(XL[_i % 6], FOCUS[_p], 700)

THOROUGH = {}
for _p in FOCUS:
    THOROUGH[_p] = J([c for x in XD + XL for c in x], FOCUS[_p], 150) + J(SEGS, FOCUS[_p] + ',steps=2000', 20)
NOTES = {
    'components': {
        'real code': 'the library headers and sources of /repo, compiled unmodified from the working tree (assembly switch, ucontext implementation and segmented stacks as listed under configurations); glibc getcontext/makecontext/swapcontext; the C++ runtime\'s exception handling and unwinder; real threads, released one at a time',
        'stubbed': 'heap (malloc family, operator new/delete), mmap/munmap/mprotect and getcontext failures are served by the simulator through link-time wrapping; the scheduler of threads and contexts is the seeded simulator',
    },
    'assumptions': ['x86-64 SysV Linux; only this platform\'s code can be executed here', 'g++ 13 -O2 with the listed language levels', 'a sample of programs, schedules and fault sequences: no violation found is evidence, not proof'],
}


COMPONENTS = {
    'C27': {'stubbed': 'the sanitizer runtime: its fiber interface (__sanitizer_*_switch_fiber, __tsan_*_fiber) is a checker of the announced protocol; ' + NOTES['components']['stubbed']},
    'C18': {'stubbed': 'the ThreadSanitizer runtime interface is replaced by the simulator, which decides the schedule at each instrumented access and models C++11 atomics; static-local guards, pthread mutex/once, getrlimit and sysconf are simulated; ' + NOTES['components']['stubbed']},
}
COMPONENTS['C31'] = {'stubbed': 'Valgrind: its client requests to register and deregister stacks are recorded by the simulator; ' + NOTES['components']['stubbed']}
COMPONENTS['C32'] = {'stubbed': "Windows: its fibers (CreateFiber, SwitchToFiber, DeleteFiber, ConvertThreadToFiber, ...) are a model over glibc's contexts that checks their documented preconditions; the fault kind 'getcontext' stands for a failing CreateFiber; " + NOTES['components']['stubbed']}
COMPONENTS['C33'] = {'stubbed': "the instructions for shadow stacks and the system call that maps one: in the API world the instructions are replaced by calls of a model that checks tokens and addresses, in the ISA world they are interpreted and every call and return is checked; " + NOTES['components']['stubbed']}
COMPONENTS['C21'] = COMPONENTS['C18']
COMPONENTS['C29'] = {
    'real code': 'the machine code of make_fcontext, jump_fcontext and ontop_fcontext of each target, assembled from the working tree (and linked, where a linker for it exists) with the tools present; MASM and armasm sources are transcribed line by line to the GNU/LLVM syntax first',
    'stubbed': 'the processor: an interpreter of the disassembled instructions; the compiled code around the primitives (callers, context functions, injected functions), played by the harness by the rules of that target\'s calling convention; the thread information block of Windows, the thread-local areas of the stack guard and of Mach-O ARM; _exit; on 32-bit PowerPC the C++ tail of ontop_fcontext; the fault kind \'interrupt\' is a signal handler that runs on the current stack, below the red zone, between any two instructions',
}
ASSUME = {'C29': ['the stand-in processors implement the instructions these files use as the architectures define them; an instruction they do not know ends the run without a verdict (counted as given_up)',
                  'not covered: PowerPC Mach-O and XCOFF, and 32-bit ARM Windows, whose sources no tool here assembles',
                  'a sample of programs, schedules and faults: no violation found is evidence, not proof']}


def level_note(p):
    return LEVEL.get(p, LEVEL['*'])


LEVEL = {'C29': 'Seeded random search over programs, schedules and interrupts for 34 targets, against the calling conventions; the processors are interpreters written for this. Trusts them, the assemblers and the disassemblers.', '*': 'Seeded random search over programs, schedules and faults against a reference model; samples, does not enumerate. Trusts the simulator, the model and the C++ runtime.'}
NOT_APPLICABLE = {
    'C28': 'Pure functions of their arguments: no schedule, clock, I/O, fault or party is involved, so there is nothing for a simulator to decide; generating inputs for them would be property testing, not simulation.',
}
