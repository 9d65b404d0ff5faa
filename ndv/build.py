"""Compiles /repo's current headers to LLVM IR (the verified text) plus the
field offsets and error values, on every run."""
import os, subprocess, tempfile, re, sys, hashlib, shutil
HERE=os.path.dirname(os.path.abspath(__file__)); ROOT=os.path.dirname(HERE)
REPO=os.environ.get('NDV_REPO','/repo')
CXX='clang++-18' if shutil.which('clang++-18') else 'clang++'
OPT='opt-18' if shutil.which('opt-18') else 'opt'
FLAGS=['-std=c++14','-include','stdexcept','-w','-O0','-Xclang','-disable-O0-optnone','-gline-tables-only','-I'+REPO+'/include']
B='nudb::detail::bucket'
ST='nudb::basic_store<nudb::xxhasher,nudb::native_file>'
BR='nudb::detail::bulk_reader<nudb::native_file>'; BW='nudb::detail::bulk_writer<nudb::native_file>'
FIELDS=[ # name, class, member, default (off,size)
 *[(f'bucket.{m}',B,m) for m in('block_size_','size_','spill_','p_')],
 ('bucket',B,None),
 *[(f'bvt.{m}',B+'::value_type',m) for m in('offset','hash','size')],
 *[(f'is.{m}','nudb::detail::istream',m) for m in('buf_','size_')],
 *[(f'os.{m}','nudb::detail::ostream',m) for m in('buf_','size_')],
 *[(f'dh.{m}','nudb::detail::dat_file_header',m) for m in('type','version','uid','appnum','key_size')],
 ('dh','nudb::detail::dat_file_header',None),
 *[(f'kh.{m}','nudb::detail::key_file_header',m) for m in('type','version','uid','appnum','key_size','salt','pepper','block_size','load_factor','capacity','buckets','modulus')],
 ('kh','nudb::detail::key_file_header',None),
 *[(f'lh.{m}','nudb::detail::log_file_header',m) for m in('type','version','uid','appnum','key_size','salt','pepper','block_size','key_file_size','dat_file_size')],
 ('lh','nudb::detail::log_file_header',None),
 *[(f'buf.{m}','nudb::detail::buffer',m) for m in('size_','buf_')],
 ('buf','nudb::detail::buffer',None),
 *[(f'br.{m}',BR,m) for m in('f_','buf_','last_','offset_','avail_','used_')],
 ('br',BR,None),
 *[(f'bw.{m}',BW,m) for m in('f_','buf_','offset_','used_')],
 ('bw',BW,None),
 ('file','nudb::native_file',None),('file.fd_','nudb::native_file','fd_'),
 *[(f'st.{m}',ST,m) for m in('open_','s_','frac_','thresh_','buckets_','modulus_','u_','g_','m_','ec_','ecb_','dataWriteSize_','logWriteSize_','ctx_')],
 ('st',ST,None),
 *[(f'ss.{m}',ST+'::state',m) for m in('df','kf','lf','dp','kp','lp','hasher','p0','p1','c1','kh','rate','when')],
 ('ss',ST+'::state',None),
 ('opt.val','boost::optional<'+ST+'::state>','m_storage'),
 ('opt.init','boost::optional<'+ST+'::state>','m_initialized'),
 *[(f'pool.{m}','nudb::detail::pool',m) for m in('arena_','key_size_','data_size_','map_')],
 ('pool','nudb::detail::pool',None),
 *[(f'pool_el.{m}','nudb::detail::pool::value_type',m) for m in('hash','size','data','key')],
 *[(f'cache.{m}','nudb::detail::cache',m) for m in('key_size_','block_size_','arena_','map_')],
 ('cache','nudb::detail::cache',None),
 *[(f'arena.{m}','nudb::detail::arena',m) for m in('label_','alloc_','used_','list_')],
 ('arena','nudb::detail::arena',None),
 *[(f'ael.{m}','nudb::detail::arena::element',m) for m in('capacity_','used_','next')],
 ('ael','nudb::detail::arena::element',None),
 *[(f'gx.{m}','nudb::detail::gentex',m) for m in('m_','cur_','prev_','cond_')],
 *[(f'sb.{m}','nudb::detail::store_base',m) for m in('next_','prev_','state_')],
 *[(f'cl.{m}','nudb::context::list',m) for m in('head_','tail_','n_')],
 *[(f'ctx.{m}','nudb::context',m) for m in('m_','stop_','waiting_','cv_w_','flushing_','cv_f_','ready_','t_','v_')],
 ('ec','nudb::error_code',None),
 *[(f'vi.{m}','nudb::verify_info',m) for m in('version','uid','appnum','key_size','salt','pepper','block_size','bucket_size','load_factor','capacity','buckets','key_file_size','dat_file_size','key_count','value_count','value_bytes','spill_count','spill_count_tot','spill_bytes','spill_bytes_tot','algorithm','fetches','hist','avg_fetch','waste','overhead','actual_load')],
 ('vi','nudb::verify_info',None),
]
ERRS='''success key_not_found key_exists short_read log_file_exists no_key_file too_many_buckets not_data_file not_key_file not_log_file different_version
invalid_key_size invalid_block_size short_key_file short_bucket short_spill short_data_record short_value hash_mismatch invalid_load_factor
invalid_capacity invalid_bucket_count invalid_bucket_size incomplete_data_file_header incomplete_key_file_header invalid_log_record
invalid_log_spill invalid_log_offset invalid_log_index invalid_spill_size uid_mismatch appnum_mismatch key_size_mismatch salt_mismatch
pepper_mismatch block_size_mismatch orphaned_value missing_value size_mismatch duplicate_value'''.split()
def offtext(skip):
    o=['#include <nudb/nudb.hpp>','#include <nudb/detail/bulkio.hpp>','#include <cstddef>']
    names=[]
    for k,(n,c,m) in enumerate(FIELDS):
        if n in skip: continue
        if m is None: o.append(f'extern "C" const unsigned long NOFF_{k}=0, NSZ_{k}=sizeof({c}); // {n}')
        else: o.append(f'extern "C" const unsigned long NOFF_{k}=__builtin_offsetof({c},{m}), NSZ_{k}=sizeof((({c}*)1)->{m}); // {n}')
    for e in ERRS:
        if 'E.'+e in skip: continue
        o.append(f'extern "C" const unsigned long NERR_{e}=(unsigned long)nudb::error::{e}; // E.{e}')
    o.append('extern "C" const unsigned long NVER_version=nudb::detail::currentVersion; // V.version')
    for c in('dat','key','log'): o.append(f'extern "C" const unsigned long NVER_{c}=nudb::detail::{c}_file_header::size;')
    return '\n'.join(o)+'\n'
class BuildError(Exception): pass
def build(work):
    os.makedirs(work,exist_ok=True)
    cpp=os.path.join(ROOT,'inst','inst.cpp'); bc=os.path.join(work,'inst.bc'); out=os.path.join(work,'v.bc')
    p1=subprocess.Popen([CXX,*FLAGS,'-emit-llvm','-c',cpp,'-o',bc],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    bcn=os.path.join(work,'instn.bc'); outn=os.path.join(work,'vn.bc')
    p2=subprocess.Popen([CXX,*FLAGS,'-DNDEBUG','-emit-llvm','-c',cpp,'-o',bcn],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    skip=set()
    while True:
        src=os.path.join(work,'offs.cpp'); open(src,'w').write(offtext(skip))
        r=subprocess.run([CXX,*FLAGS,'-fno-access-control','-ferror-limit=0','-S','-emit-llvm',src,'-o',os.path.join(work,'offs.ll')],capture_output=True,text=True)
        if r.returncode==0: break
        lines=open(src).read().split('\n'); bad=set()
        for m in re.finditer(r'offs\.cpp:(\d+):\d+: error',r.stderr):
            l=lines[int(m.group(1))-1]
            if '//' in l: bad.add(l.split('// ')[1].strip())
        if not bad-skip: raise BuildError('offset probe does not compile: '+r.stderr[:2000])
        skip|=bad
    log=p1.communicate()[0]
    if p1.returncode: raise BuildError('instantiation does not compile: '+log[:3000])
    log=p2.communicate()[0]
    if p2.returncode: raise BuildError('NDEBUG instantiation does not compile: '+log[:3000])
    subprocess.run([OPT,'-passes=sroa,simplifycfg',bcn,'-o',outn],check=True)
    r=subprocess.run([OPT,'-passes=sroa,simplifycfg',bc,'-o',out],capture_output=True,text=True)
    if r.returncode: raise BuildError('opt: '+r.stderr[:2000])
    off={}; sz={}; E={}; V={}
    for m in re.finditer(r'@(NOFF|NSZ|NERR|NVER)_(\w+) = .*constant i64 (\d+)',open(os.path.join(work,'offs.ll')).read()):
        if m[1]=='NOFF': off[int(m[2])]=int(m[3])
        elif m[1]=='NSZ': sz[int(m[2])]=int(m[3])
        elif m[1]=='NERR': E[m[2]]=int(m[3])
        else: V[m[2]]=int(m[3])
    OFF={FIELDS[k][0]:(off[k],sz[k]) for k in off}
    return {'bc':out,'bcn':outn,'OFF':OFF,'E':E,'V':V,'skipped':sorted(skip)}
DEFOFF=os.path.join(HERE,'offsets.json')
def load(work):
    import json
    b=build(work)
    d=json.load(open(DEFOFF)) if os.path.exists(DEFOFF) else {'OFF':{},'E':{}}
    for k,v in d['OFF'].items(): b['OFF'].setdefault(k,tuple(v))
    for k,v in d['E'].items(): b['E'].setdefault(k,v)
    return b
if __name__=='__main__':
    import json
    b=build('/tmp/w/bld')
    print(b['skipped']); print(b['E']); print(b['V']); print(b['OFF'])
    json.dump({'OFF':b['OFF'],'E':b['E']},open(DEFOFF,'w'),indent=0,sort_keys=True)
