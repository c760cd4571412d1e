import sys, time
import build, irparse, execute, solve
def main():
    src=sys.argv[1]; trace=int(sys.argv[3]) if len(sys.argv)>3 else 0
    cfg=solve.parse_cfg(src)
    t=build.compile_ir(src,'/tmp/x',ctx_opaque=cfg['opaque'])
    import re
    M=irparse.parse_module(t)
    hs=[n for n in M.bodies if n.startswith('h_')]
    want=sys.argv[2] if len(sys.argv)>2 else None
    cfg=solve.parse_cfg(src)
    for h in hs:
        if want and want!='-' and not re.fullmatch('h_('+want+')',h): continue
        t0=time.time()
        e=execute.make(M,cfg,{'trace':trace,'dump':__import__('os').environ.get('DUMP'),'effort':int(__import__('os').environ.get('EFFORT','1'))})
        try:
            e.run_harness(h)
        except execute.Unsupported as x:
            import traceback
            print(h,'UNSUPPORTED',x, e.loc(e.curdbg))
            if trace: traceback.print_exc()
            continue
        t1=time.time()
        r=solve.discharge(e,e.obls,verbose=trace)
        bad=[o for o in e.obls if o.status!='proved']
        print(f'{h}: obls {len(e.obls)} bad {len(bad)} gen {t1-t0:.1f}s solve {time.time()-t1:.1f}s q {e.qf.n}/{e.full.n} {e.qf.t:.1f}/{e.full.t:.1f}s os {e.os_n} {e.os_t:.1f} {e.os_ok}')
        for o in bad[:15]:
            print('   FAIL',o.kind,o.label,o.loc,o.status)
            if trace: 
                print('        goal',str(o.goal)[:400])
        if trace>2:
            for o in bad[:1]:
                for f in o.pc: print('      ',str(f).replace('\n',' ')[:300])
if __name__=='__main__': main()
