"""how the record sorts appear in the proofs about their callers: gslib_sortp_* leaves a permutation (ghost heap srt, its inverse sri) that lists the
keys in order and is stable, or refines the earlier permutation; gslib_sarray_permute_buf_ moves the records accordingly, seen on their fields.
(Contracts of the sorting code itself: proof/c08.py, proof/c10.py.)"""
def ext(structs):
    """structs: {name: (size, {field: (offset, 'ui'|'ull')}, [all scalar fields])}; ghost argument bs: the byte address of the records"""
    out={}
    for ty,ct,u in(('ui','unsigned int',4),('ull','unsigned long long',8)):
        at=[(f'stride={sz} /\\ va=div bs {u}+{off//u}',f'{s}_{f}',f'recp_{s} bs',sz) for s,(sz,fs,_) in structs.items() for f,(off,t) in fs.items() if t==ty]
        if not at: continue
        ens=['forall k. 0<=k<n -> 0<=@srt[k]<n /\\ @sri[@srt[k]]=k','forall k. 0<=k<n -> 0<=@sri[k]<n /\\ @srt[@sri[k]]=k']
        for c,h,R,sz in at: ens+=[f'{c} -> forall j k. 0<=j<k<n -> @{h}[{R}+@srt[j]]<=@{h}[{R}+@srt[k]]',
            f'{c} -> forall j k. 0<=j<k<n -> @{h}[{R}+@srt[j]]=@{h}[{R}+@srt[k]] -> if start=0 then @srt[j]<@srt[k] else @@sri[@srt[j]]<@@sri[@srt[k]]']
        out[f'gslib_sortp_{ty}']=dict(params=['buf','start','va','n','stride'],types=['struct array *','int',f'{ct} *','unsigned int','unsigned int'],ret='unsigned int *',ghostparams='(ghost bs: int)',
          requires=['('+' \\/ '.join(f'({c})' for c,_,_,_ in at)+')'],ensures=ens,w={'u32':'inbuf buf a','srt':'true','sri':'true','array_ptr':'a=buf','array_max':'a=buf','array_n':'a=buf'},
          why=f'sortp_{ty} as seen by callers: a stable permutation that sorts one field of the records (its parts proved in proof/c08.py, whole function checked bounded in C09)')
    ens=[];w={}
    for s,(sz,fs,al) in structs.items():
        for f in al:
            h=f'{s}_{f}'; w[h]=f'size={sz} /\\ recp_{s} va<=a<recp_{s} va+n'; ens.append(f'size={sz} -> forall q. recp_{s} va<=q<recp_{s} va+n -> @{h}[q]=@@{h}[recp_{s} va+@@srt[q-recp_{s} va]]')
    w.update({'array_ptr':'a=buf','array_max':'a=buf','array_n':'a=buf'})
    out['gslib_sarray_permute_buf_']=dict(params=['align','size','va','n','buf'],types=['unsigned long','unsigned long','void *','unsigned long','struct array *'],ret='void',requires=['('+' \\/ '.join(f'size={sz}' for sz,_,_ in structs.values())+')'],ensures=ens,w=w,
        why='sarray_permute_buf_ as seen by callers: moves whole records by the permutation (the permuting loop is proved on bytes in proof/c10.py)')
    return out
def nospace(e): return e
