import os,sys,json,subprocess
R=os.environ.get('SEEDREPO','/repo')
LIBS="-labsl_str_format_internal -labsl_cord -labsl_cordz_info -labsl_cord_internal -labsl_cordz_functions -labsl_cordz_handle -labsl_hash -labsl_city -labsl_low_level_hash -labsl_raw_hash_set -labsl_hashtablez_sampler -labsl_exponential_biased -labsl_synchronization -labsl_graphcycles_internal -labsl_stacktrace -labsl_symbolize -labsl_debugging_internal -labsl_demangle_internal -labsl_malloc_internal -labsl_time -labsl_civil_time -labsl_time_zone -labsl_strings -labsl_strings_internal -labsl_base -labsl_spinlock_wait -labsl_int128 -labsl_throw_delegate -labsl_bad_optional_access -labsl_bad_variant_access -labsl_raw_logging_internal -labsl_log_severity -lrt -lpthread"
def seed(id, prop, file, old, new, needs, breaks, srcs, demo, demosh=None):
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    edits=file if isinstance(file,list) else [(file,old,new)]
    try:
        for f,o,n in edits:
            p=R+'/'+f; t=open(p).read(); assert t.count(o)==1,(id,f,t.count(o))
            open(p,'w').write(t.replace(o,n))
        diff=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True).stdout
    finally:
        subprocess.run(['git','-C',R,'checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(diff)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    if demo is not None: open(d+'/demo.cc','w').write(demo)
    if demosh is None:
        demosh=f'''#!/bin/bash
# run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -r "$t"' EXIT
g++ -std=c++20 -O1 -w -fsanitize=address,undefined -fno-sanitize-recover=undefined -I. -iquote . "$d/demo.cc" {srcs} {LIBS} -o "$t/demo" || exit 99
cd "$t" && ASAN_OPTIONS=detect_leaks=0 ./demo
'''
    open(d+'/demo.sh','w').write(demosh)
ROM="nsasm/error.cc nsasm/memory.cc nsasm/rom.cc"
