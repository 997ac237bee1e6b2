ALL = ["butter", "cheb1", "cheb2", "rbj"]
CHECKS = {
 "C01": dict(src=["c01.cpp"], regs=ALL + ["sos"], caps={"DF2": [5, 12, 24]}, caps_thorough={"DF2": [5, 16], "DF1": [2], "TDF2": [4]},
   level="model_checking"),
 "C02": dict(src=["c02.cpp"], regs=ALL + ["sos"], caps={"DF2": [5, 12, 24]}, caps_thorough={"DF2": [5, 16], "DF1": [2], "TDF2": [4]},
   level="model_checking"),
}
CHECKS["C03"] = dict(src=["c03.cpp"], regs=ALL, caps={"DF2": [5]}, caps_thorough={"DF2": [1,2,5,8], "DF1": [3], "TDF2": [6]}, level="model_checking")
CHECKS["C04"] = dict(src=["c04.cpp"], regs=ALL, caps={"DF2": [5]}, caps_thorough={"DF2": [5], "DF1": [2], "TDF2": [8]}, level="model_checking")
CHECKS["C05"] = dict(src=["c05.cpp"], regs=ALL, caps={"DF2": [5, 12, 24]}, caps_thorough={"DF2": [5], "DF1": [2], "TDF2": [8]}, level="model_checking",
  second={"noexc": dict(flags=["-DIIR1_NO_EXCEPTIONS"], libflags=["-fno-exceptions"])})
CHECKS["C06"] = dict(src=["c06.cpp"], regs=ALL, caps={"DF2": [5, 12, 24]}, caps_thorough={"DF2": [5], "DF1": [2], "TDF2": [8]}, level="model_checking")
CHECKS["C07"] = dict(src=["c07.cpp"], regs=ALL[:3], caps={"DF2": [1,2,3,4,5,6,12,24]}, caps_thorough={"DF2": [1,2,3,4,5,6,7,8,9,10,12,24]}, level="model_checking")
CHECKS["C08"] = dict(src=["c08.cpp"], opt="-O2", level="model_checking")
CHECKS["C09"] = dict(src=["c09.cpp"], opt="-O1", level="model_checking")
ALLS = ALL + ["sos"]
CHECKS["C11"] = dict(src=["c11.cpp"], regs=ALLS, caps={"DF1": [3], "DF2": [4, 24], "TDF2": [5]}, level="model_checking")
CHECKS["C12"] = dict(src=["c12.cpp"], regs=ALLS, caps={"DF1": [3], "DF2": [4], "TDF2": [3, 24]}, level="model_checking")
CHECKS["C13"] = dict(src=["c13.cpp"], regs=ALLS, caps={"DF1": [3], "DF2": [4, 24], "TDF2": [3]}, level="model_checking")
CHECKS["C14"] = dict(src=["c13.cpp"], srcflags=["-DASSIGN"], regs=ALLS, caps={"DF1": [3], "DF2": [4, 24], "TDF2": [3]}, level="model_checking")
CHECKS["C10"] = dict(src=["c10.cpp"], regs=ALL[:3] + ["sos"], caps={"DF1": [6, 18], "DF2": [6, 18], "TDF2": [6, 18]}, level="model_checking")
CHECKS["C18"] = dict(src=["c18.cpp"], regs=ALLS, caps={"DF1": [3], "DF2": [4], "TDF2": [1, 24]}, level="model_checking")
CHECKS["C27"] = dict(src=["c27.cpp"], regs=ALLS, flags=["-DXTYPES"], caps={"DF1": [3], "DF2": [4, 24], "TDF2": [3]}, level="model_checking")
CHECKS["C28"] = dict(src=["c28.cpp"], regs=ALLS, caps={"DF1": [3], "DF2": [5, 24], "TDF2": [4]}, level="model_checking")
CHECKS["C19"] = dict(src=["c19.cpp"], regs=ALL, caps={"DF2": [8, 13]}, opt="-O2", level="model_checking")
CHECKS["C20"] = dict(src=["c20.cpp"], regs=ALL, caps={"DF2": [8, 13]}, level="model_checking")
CHECKS["C21"] = dict(src=["closed.cpp"], srcflags=["-DMODE=1", "-DTOL=5e-6", "-DTIGHT=5e-8", "-DMIDTOL=1e-10", "-DLOWTOL=1e-3"], regs=["butter"], caps={"DF2": [20]}, caps_thorough={"DF2": [32]}, opt="-O2", level="model_checking")
CHECKS["C22"] = dict(src=["closed.cpp"], srcflags=["-DMODE=2", "-DTOL=2e-4", "-DTIGHT=1e-6", "-DMIDTOL=1e-8", "-DLOWTOL=5e-3"], regs=["cheb1"], caps={"DF2": [16]}, caps_thorough={"DF2": [24]}, opt="-O2", level="model_checking")
CHECKS["C23"] = dict(src=["closed.cpp"], srcflags=["-DMODE=3", "-DTOL=5e-4", "-DTIGHT=5e-7", "-DMIDTOL=1e-8", "-DLOWTOL=5e-3"], regs=["cheb2"], caps={"DF2": [16]}, caps_thorough={"DF2": [24]}, opt="-O2", level="model_checking")
CHECKS["C24"] = dict(src=["closed.cpp"], srcflags=["-DMODE=4", "-DTOL=1e-6", "-DTIGHT=2e-7", "-DMIDTOL=1e-9", "-DLOWTOL=1e-3"], regs=ALL[:3], caps={"DF2": [12]}, caps_thorough={"DF2": [20]}, opt="-O2", level="model_checking")
CHECKS["C15"] = dict(src=["c15.cpp"], srcflags=["-fno-threadsafe-statics"], regs=ALLS, caps={"DF2": [3]}, caps_thorough={"DF2": [3], "DF1": [2], "TDF2": [4]}, cxx="clang++", libflags=["-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"], regflags=["-fsanitize=thread"], ldflags=["-lpthread", "-ldl", "-no-pie"], flags=["-fno-pie"], level="model_checking")
CHECKS["C16"] = dict(src=["c16.cpp"], regs=ALLS, caps={"DF2": [5, 12, 130]}, caps_thorough={"DF2": [5, 16], "DF1": [2], "TDF2": [4]}, level="model_checking")
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g1", "-D_GLIBCXX_ASSERTIONS"]
CHECKS["C17"] = dict(src=["c17.cpp"], regs=ALLS, caps={"DF2": [1, 4, 9, 131], "TDF2": [3]}, caps_thorough={"DF2": [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 40, 131, 200], "DF1": [3], "TDF2": [5]}, flags=SAN, ldflags=SAN,
  env={"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:handle_segv=0:handle_abort=0"}, level="model_checking")
CHECKS["C25"] = dict(src=["c25.cpp"], regs=["rbj"], opt="-O2", level="model_checking")
CHECKS["C26"] = dict(src=["c26.cpp"], regs=ALL, caps={"DF2": [20]}, caps_thorough={"DF2": [24]}, opt="-O2", level="model_checking")
CHECKS["C29"] = dict(src=["c29.cpp"], opt="-O2", level="model_checking")
CHECKS["C30"] = dict(src=["c30.cpp"], regs=ALLS, caps={"DF2": [1, 4], "DF1": [3], "TDF2": [8, 14]}, libflags=["-fsanitize-coverage=trace-pc"], regflags=["-fsanitize-coverage=trace-pc"], level="model_checking")
CHECKS["C31"] = dict(CHECKS["C15"], src=["c31.cpp"], caps={"DF1": [2], "DF2": [5], "TDF2": [3]}, caps_thorough={"DF2": [1, 5, 12], "DF1": [2, 3], "TDF2": [4, 5]})
V = "-DVARIANT"
CHECKS["C33"] = dict(src=["c33.cpp"], regs=ALLS, caps={"DF1": [3], "DF2": [5, 24], "TDF2": [4]}, level="model_checking", second={
  "gcc0": dict(opt="-O0", flags=[V, "-std=c++20"]), "gcc3": dict(opt="-O3", flags=[V, "-std=c++17", "-DNDEBUG"]),
  "clang0": dict(cxx="clang++", opt="-O0", flags=[V, "-std=c++14", "-D_GLIBCXX_ASSERTIONS"]), "clang3": dict(cxx="clang++", opt="-O3", flags=[V, "-std=c++20", "-DNDEBUG"]),
  "gccs": dict(opt="-Os", flags=[V, "-std=c++23", "-fPIC"]), "fma": dict(opt="-O2", flags=[V, "-DNDEBUG", "-mfma", "-ffp-contract=fast"]), "o2": dict(opt="-O2", flags=[V, "-g", "-DNDEBUG"])})
CHECKS["C32"] = dict(src=["c32.cpp"], opt="-O2", level="model_checking")
CHECKS["C34"] = dict(src=["c34.cpp"], regs=ALL, caps={"DF2": [12]}, caps_thorough={"DF2": [20]}, opt="-O2", level="model_checking")
CHECKS["C35"] = dict(src=["c35.cpp"], regs=ALL, caps={"DF2": [12]}, caps_thorough={"DF2": [20]}, opt="-O2", level="model_checking")
CHECKS["C36"] = dict(src=["c36.cpp"], regs=ALLS, caps={"DF1": [3], "DF2": [4], "TDF2": [3, 24]}, level="model_checking")
CHECKS["C37"] = dict(src=["c37.cpp"], regs=ALLS, caps={"DF1": [3], "DF2": [4, 24], "TDF2": [3]}, ldflags=["-lpthread"], level="model_checking", second={})
CHECKS["C38"] = dict(src=["c38.cpp", "c38_butter.cpp", "c38_cheb1.cpp", "c38_cheb2.cpp"], regs=["rbj"], flags=["-std=c++17"], level="model_checking")
CHECKS["C39"] = dict(src=["c39.cpp"], level="model_checking")
CHECKS["C40"] = dict(src=["c40.cpp"], level="model_checking")
