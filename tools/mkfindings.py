import subprocess
m={ 'trailing data in SSH signatures':'C01','signature algorithm to match the exact':'C01','trailing data in certificate option':'C02','duplicate options':'C02','trailing data after a certificate':'C02','certificate type name to match':'C02','reserved field of a new certificate':'C03','lexical order':'C04','certificates as plain public keys':'C06','curve does not match':'C06','trailing data after a public key':'C06','scalar has leading zero':'C11','truncated Ed25519 key':'C11','factor of zero or one':'C10','store generated Ed25519':'C08','reserved field when encoding':'C08','size of RSA keys':'C07','whole comment':'C06','comment of the expected key':'C13','trailing data after an SSH signature file':'C13','reserved field of SSH signatures':'C13','empty namespace':'C14','using SHA1':'C13','comment ends with a quote':'C16','quotes inside the principals':'C16','tabs between':'C16','digits and a single Z':'C17','daylight saving':'C17','print allowed signers':'C18','both coordinates':'C25','size of their algorithm':'C25','internal USB':'C26','unreadable PIV':'C24','truncated PIV policy':'C24','type contradicts their content':'C10','length of the sequence in DER':'C22','malformed integers':'C22','wipe the PIN':'C12','null terminated strings':'C20','coordinates of different lengths':'C25','long common names':'C35','token disappears while':'C35','wait forever for a PIN':'C29','wait forever when a FIDO':'C29','flags of FIDO signatures':'C36','short name of FIDO ECDSA':'C21','reserved data when encoding':'C04'}
out=["# finding: property=<id> key=<facet>/<kind> <text>   an unrepaired defect (none at present)","# fixed: property=<id> <commit> <what failed>        a repaired one; suppresses nothing"]
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s']).decode().splitlines()
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix:'): continue
    k=[v for p,v in m.items() if p in s]
    assert len(k)==1,(s,k)
    out.append(f"fixed: property={k[0]} {h} {s[5:]}")
open('/verif/known-findings.txt','w').write('\n'.join(out)+'\n')
