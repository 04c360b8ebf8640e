#!/usr/bin/env python3
# mk.py SPECFILE...: makes /verif/seeded/<id>/ from python specs
import sys, subprocess, json, os, shutil, runpy
for f in sys.argv[1:]:
    s = runpy.run_path(f)
    for b in s['BUGS']:
        id = b['id']; D = f'/verif/seeded/{id}'
        assert subprocess.run(['git','-C','/repo','status','--porcelain'],capture_output=True,text=True).stdout=='' , 'dirty'
        try:
            for (path, old, new, *n) in b['edits']:
                p = '/repo/'+path; t = open(p).read()
                c = t.count(old); want = n[0] if n else 1
                if want == 'all': t = t.replace(old,new)
                else:
                    if isinstance(want, tuple):   # (k,of): replace kth of `of`
                        k, of = want; assert c==of, (id, path, c)
                        parts = t.split(old); t = old.join(parts[:k]) + new + old.join(parts[k:])
                    else:
                        assert c==want, (id, path, c, old); t = t.replace(old,new)
                open(p,'w').write(t)
            diff = subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
        finally:
            subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
        os.makedirs(D, exist_ok=True)
        open(D+'/patch.diff','w').write(diff)
        sh = open('/verif/tools/seeding/demo.sh').read()
        if b.get('tracing'): sh = sh.replace('masstree = { path = "$REPO" }','masstree = { path = "$REPO", features = ["tracing"] }')
        if b.get('with_file'): sh = sh.replace('cat > "$T/Cargo.toml"','cp "$REPO/%s" "$T/src/" || exit 3\ncat > "$T/Cargo.toml"' % b['with_file'])
        if b.get('flags'): sh = sh.replace('unset CARGO_BUILD_TARGET_DIR RUSTFLAGS','unset CARGO_BUILD_TARGET_DIR\nexport RUSTFLAGS="%s"'%b['flags'])
        open(D+'/demo.sh','w').write(sh)
        open(D+'/main.rs','w').write(b['main'].lstrip('\n'))
        json.dump({"property":b['prop'],"needs":b['needs'],"what_it_breaks":b['breaks']}, open(D+'/meta.json','w'), indent=1)
        print('made', id)
