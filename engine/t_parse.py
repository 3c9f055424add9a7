import ir,sys,time
t=time.time(); M=ir.Module(sys.argv[1]); print(time.time()-t)
bad=0
for n in M.ftext:
    try:
        f=M.func(n); f.cfg()
        for b in f.order:
            for i in f.blocks[b]:
                if i.op in('atomicrmw','invoke','landingpad','resume','va_arg'): print(n,i)
    except Exception as e:
        bad+=1; print('ERR',n,repr(e)[:200])
for g in M.globals:
    try: M.global_init(g)
    except Exception as e: print('GERR',g,repr(e)[:200])
print(len(M.ftext),bad,time.time()-t)
print(sum(len(M.func(n).loops) for n in M.ftext), sum(1 for n in M.ftext if M.func(n).loops))
