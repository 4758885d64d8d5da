# Which simulations decide which property.  variant T: compiler memory-access hooks (preemption anywhere);
# variant A: AddressSanitizer plus edge hooks (memory errors and preemption at basic blocks).
def T(src, name="sim", **kw):
    return dict(name=name, src=[src] if isinstance(src, str) else src, variant="T", **kw)
def A(src, name="asan", **kw):
    return dict(name=name, src=[src] if isinstance(src, str) else src, variant="A", **kw)

ZW = ["-Wl,--wrap=" + x for x in "deflateInit_ deflateInit2_ deflateEnd inflateInit_ inflateInit2_ inflateEnd".split()]

SW = ["-Wl,--wrap=" + x for x in "SSL_new SSL_free".split()] + ["-l:libssl.a", "-l:libcrypto.a", "-ldl"]

MW = ["-Wl,--wrap=" + x for x in "posix_memalign free vasprintf".split()]
CL = ["-Wl,--wrap=" + x for x in "EVP_MD_CTX_new EVP_MD_CTX_free EVP_CIPHER_CTX_new EVP_CIPHER_CTX_free EVP_DigestUpdate EVP_DigestFinal_ex EVP_CipherUpdate EVP_CipherFinal_ex".split()] + ["-l:libcrypto.a", "-ldl"]
LIBC_PREEMPT = ["-Wl,--wrap=" + f for f in "memcpy memmove strlen gmtime_r strftime snprintf strerror_r".split()]

PROPS = {
    "C01": dict(builds=[T("c01.cpp")]),
    "C02": dict(builds=[T("c02.cpp")]),
    "C03": dict(builds=[T("c03.cpp", "cv"), T("c03.cpp", "pipe", flags=["-DEVENT_PIPE"])]),
    "C04": dict(builds=[T("c04.cpp")]),
    "C05": dict(builds=[T("c05.cpp")]),
    "C06": dict(builds=[T("c06.cpp"), A("c06.cpp", weight=0.5)]),
    "C07": dict(builds=[T("c07.cpp")]),
    "C08": dict(builds=[T("c08.cpp")]),
    "C09": dict(builds=[T("c09.cpp")]),
    "C10": dict(builds=[T("c10.cpp"), A("c10.cpp", weight=0.5)]),
    "C11": dict(builds=[T("c11.cpp"), A("c11.cpp", weight=0.5)]),
    "C12": dict(builds=[T("c12.cpp")]),
    "C14": dict(builds=[T("c14.cpp"), A("c14.cpp", weight=0.5)]),
    "C15": dict(builds=[T("c15.cpp"), A("c15.cpp", weight=0.5)]),
    "C16": dict(builds=[T("c16.cpp"), A("c16.cpp", weight=0.5)]),
    "C17": dict(builds=[T("c17.cpp", libs=ZW + ["-l:libz.a"]), A("c17.cpp", weight=0.5, libs=ZW + ["-l:libz.a"])]),
    "C18": dict(builds=[T("c18.cpp"), T("c18.cpp", "fixed", flags=["-DCYBOZU_SERIALIZER_FIXED_SIZE_INTEGER"], weight=0.5), A("c18.cpp", weight=0.5)]),
    "C19": dict(builds=[T("c19.cpp"), A("c19.cpp", weight=0.5)]),
    "C20": dict(builds=[T("c20.cpp"), A("c20.cpp", weight=0.5)]),
    "C21": dict(builds=[T("c21.cpp"), A("c21.cpp", weight=0.5)]),
    "C22": dict(builds=[T("c22.cpp"), A("c22.cpp", weight=0.5)]),
    "C23": dict(builds=[T("c23.cpp"), A("c23.cpp", weight=0.3)]),
    "C25": dict(builds=[T("c25.cpp"), T("c25.cpp", "epoll", flags=["-DCYBOZU_SOCKET_USE_EPOLL"], weight=0.5), A("c25.cpp", weight=0.3)]),
    "C26": dict(builds=[T("c26.cpp"), T("c26.cpp", "epoll", flags=["-DCYBOZU_SOCKET_USE_EPOLL"], weight=0.5), A("c26.cpp", weight=0.3)]),
    "C27": dict(builds=[T("c27.cpp"), A("c27.cpp", weight=0.3)]),
    "C29": dict(builds=[T("c29.cpp"), A("c29.cpp", weight=0.3)]),
    "C30": dict(builds=[T("c30.cpp"), A("c30.cpp", weight=0.3)]),
    "C31": dict(builds=[T("c31.cpp", flags=["-DCYBOZU_BENCH_USE_GETTIMEOFDAY"]), T("c31.cpp", "cpu", flags=["-DCYBOZU_BENCH_DONT_USE_RDTSC"], weight=0.3), A("c31.cpp", weight=0.3, flags=["-DCYBOZU_BENCH_USE_GETTIMEOFDAY"])]),
    "C28": dict(builds=[T("c28.cpp", flags=["-Wno-deprecated-declarations"], libs=SW), A("c28.cpp", weight=0.3, flags=["-Wno-deprecated-declarations"], libs=SW)]),
    "C32": dict(builds=[T("c32.cpp", libs=MW), A("c32.cpp", weight=0.7, libs=MW)]),
    "C33": dict(builds=[T("c33.cpp", libs=CL), T("c33.cpp", "own", weight=0.3, flags=["-DCYBOZU_DONT_USE_OPENSSL"], libs=CL), A("c33.cpp", weight=0.7, libs=CL)]),
    "C34": dict(builds=[T("c34.cpp", flags=["-DLIBC_PREEMPT"], libs=LIBC_PREEMPT), A("c34.cpp", weight=0.5)]),
    "C35": dict(builds=[T("c35.cpp", flags=["-DCYBOZU_DONT_USE_OPENSSL", "-DLIBC_PREEMPT"], libs=["-l:libz.a"] + LIBC_PREEMPT), A("c35.cpp", weight=0.3, flags=["-DCYBOZU_DONT_USE_OPENSSL"], libs=["-l:libz.a"])]),
    "C36": dict(builds=[T("c36.cpp", flags=["-DCYBOZU_DONT_USE_OPENSSL"], libs=["-l:libz.a"] + MW), A("c36.cpp", weight=0.5, flags=["-DCYBOZU_DONT_USE_OPENSSL"], libs=["-l:libz.a"] + MW)]),
    "C24": dict(builds=[T("c24.cpp"), A("c24.cpp", weight=0.3)]),
}
