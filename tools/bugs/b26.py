exec(open('/tmp/p/plant/b/ht.py').read())
ID='C16-empty-slices-skipped'; PROP='C16'
EDITS=[('PyEC4PyHT.py',"""        if beam.slice_info != "unsliced":
            dz =""","""        if beam.slice_info != "unsliced" and beam.macroparticlenumber > 0:
            dz =""")]
NEEDS='slices without particles between slices with particles, fed one at a time'
BREAKS='the cloud does not move during the slices without particles'
DEMO=HT+'''
a, b = Beam(), Beam()
for q in (a, b): q.z[(q.z > -.03) & (q.z < .04)] = .05
el = element("whole", n=6)
track(el, a)
el = element("slices", n=6, slicewise=True)
p = b.pieces(6, 0)
np.random.seed(7)
with quiet():
    el._reinitialize()
    for s in p: el.track(s)
for s in [s for s in p if len(s.x)]:
    check(np.allclose(s.xp, a.xp[s.ix], rtol=1e-9, atol=0), "kicks differ by up to %g" % np.abs(s.xp - a.xp[s.ix]).max())
'''
