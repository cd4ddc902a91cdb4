# programs per property
def PROGRAMS( UTF8ONLY, ALLENC, LIGHT, ASAN, CASAN, TSAN, PLAIN, ENCS):
    PRINTER=[("printer.cpp",["-DOUTENC="+e]+(["-DPRINTER_MAKE"] if e=="UTF8" else [])) for e in ("UTF8","UTF16LE","UTF16BE","UCS2LE","UCS2BE","UCS4LE","UCS4BE","IsoLatin")]
    OBJS=[("objs.cpp",["-DPART=%d"%i]) for i in range(1,7)]
    return {
        "C04": [("main",[("c04.cpp",[])],ASAN,{})],
        "C03": [("main",[("c03.cpp",[])],ASAN,{})],
        "C02": [("main",[("c02.cpp",[])]+ALLENC+PRINTER,ASAN,{})],
        "C13": [("main",[("c13.cpp",[])]+LIGHT+PRINTER,CASAN,{})],
        "C14": [("main",[("c14.cpp",[])]+LIGHT+PRINTER,CASAN,{})],
        "C01": [("main",[("c01.cpp",[])],ASAN,{})],
        "C12": [("main",[("c12.cpp",[])]+ALLENC,CASAN,{})],
        "C11": [("main",[("c11.cpp",[])]+ALLENC,CASAN,{})],
        "C10": [("main",[("c10.cpp",[])]+ALLENC,CASAN,{}),("large",[("c10large.cpp",[])],PLAIN+["-O2"],{})],
        "C09": [("main",[("c09.cpp",[])]+ALLENC,CASAN,{})],
        "C22": [("main",[("c22.cpp",[])]+ALLENC,CASAN,{})],
        "C23": [("main",[("c23.cpp",[])]+ALLENC,CASAN,{})],
        "C08": [("main",[("c08.cpp",[])]+ALLENC,CASAN,{})],
        "C16": [("main",[("c16.cpp",[])]+[("pathparser.cpp",["-DSRCCS="+e]) for e in ("UTF8","UTF16LE","UTF16BE","UCS2LE","UCS2BE","UCS4LE","UCS4BE","IsoLatin")],CASAN,{})],
        "C17": [("main",[("c17.cpp",[])],CASAN,{})],
        "C18": [("main",[("c18.cpp",[])],CASAN,{})],
        "C21": [("main",[("c21.cpp",[])],CASAN,{})],
        "C19": [("main",[("c19.cpp",[])]+OBJS,CASAN+["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc"],{})],
        "C24": [("main",[("c24.cpp",[])],ASAN,{})],
        "C20": [("main",[("c20.cpp",[])]+OBJS,TSAN,{})],
        "C26": [("main",[("c26.cpp",[])]+UTF8ONLY,CASAN,{})],
        "C28": [("main",[("c28.cpp",[])],["clang++"]+PLAIN+["-fsanitize-coverage=trace-pc-guard","-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc"],{})],
        "C27": [("main",[("c27.cpp",[])],CASAN,{})],
        "C25": [("main",[("c25.cpp",[])],ASAN,{})],
        "C15": [("main",[("c15.cpp",[])],CASAN,{})],
        "C07": [("main",[("c07.cpp",[])]+ALLENC,CASAN,{}),
                ("memcheck",[("c07.cpp",["-DVG"])]+LIGHT,PLAIN,{"wrap":["valgrind","--error-exitcode=99","--quiet","--leak-check=no","--child-silent-after-fork=no"]})],
        "C06": [("main",[("c06.cpp",[])]+ALLENC,CASAN,{})],
        "C05": [("main",[("c05.cpp",[])]+UTF8ONLY,CASAN,{})],
    }
ASSUMPTIONS = {"*": ["the generated workload represents the inputs of users", "g++ 13 and clang 18 with libstdc++ on x86-64"]}
TECHNIQUE = {"*": "runtime monitoring under AddressSanitizer and UBSan of generated executions against a reference oracle",
  "C20": "runtime monitoring under ThreadSanitizer of threads and interleavings in fresh processes, against recordings of each object used alone",
  "C07": "runtime monitoring of hostile inputs under AddressSanitizer and UBSan and under valgrind memcheck, counters of accesses for termination",
  "C28": "runtime monitoring of the work done: edge counters (sanitizer coverage) and interposed copying and allocation functions, compared between inputs of two sizes",
  "C15": "runtime monitoring under AddressSanitizer and UBSan: the selections reported are checked online against a reference evaluator of path expressions"}
NOTE = {"*": "The property held on all executions generated (counts in the evidence); assumes the reference model and the generator represent the property and its inputs."}
