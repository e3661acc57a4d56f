exec(open('/tmp/bat/r7.py').read()); V=[v for v in V if v[0] in('rp1','pt1','rn1','rn2')]
