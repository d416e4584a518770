#!/usr/bin/env python3
"""mkbug.py SPEC.py... : writes /verif/seeded/<id>/ from a spec (development helper).
A spec sets: id, prop, needs, breaks, pkg, edits=[(file, old, new)], test (Go source; uses the helper when helper=True), flags."""
import os, re, subprocess, sys, json, tempfile, shutil
V='/verif'
for spec in sys.argv[1:]:
    g={'helper':True,'pkg':'signer','flags':''}
    exec(open(spec).read(), g)
    d=f"{V}/seeded/{g['id']}"; os.makedirs(d, exist_ok=True)
    w=tempfile.mkdtemp(prefix='mkbug'); 
    subprocess.check_call(['git','clone','-q','/repo',w])
    for f,o,n in g['edits']:
        t=open(f'{w}/{f}').read()
        assert t.count(o)==1, (g['id'], f, t.count(o), o)
        open(f'{w}/{f}','w').write(t.replace(o,n))
        if f.endswith('.go'): subprocess.call(['/opt/veriftools/go1.26.10/bin/gofmt','-l',f'{w}/{f}'])
    open(f'{d}/patch.diff','w').write(subprocess.check_output(['git','-C',w,'diff'],text=True))
    shutil.rmtree(w)
    test=g['test'].strip()+'\n'
    if g['helper']:
        open(f'{d}/helper_test.go','w').write(open(f'{V}/tools/demo_helper.go.txt').read())
    open(f'{d}/demo_test.go','w').write(test)
    sh=open(f'{V}/tools/demo_template.sh').read().replace('PKG',g['pkg']).replace('FLAGS ',(g['flags']+' ') if g['flags'] else '')
    if g['helper']:
        sh=sh.replace('''"%s/demo_test.go"}}' "$PWD" "$here" >''','''"%s/demo_test.go","%s/'''+g['pkg']+'''/zz_helper_test.go":"%s/helper_test.go"}}' "$PWD" "$here" "$PWD" "$here" >''')
    open(f'{d}/demo.sh','w').write(sh); os.chmod(f'{d}/demo.sh',0o755)
    json.dump({'property':g['prop'],'needs':g['needs'],'what_it_breaks':g['breaks']},open(f'{d}/meta.json','w'),indent=1)
    print(g['id'],'written')
