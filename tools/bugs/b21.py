exec(open('/tmp/p/plant/b/ht.py').read())
ID='C15-size-of-the-previous-passage'; PROP='C15'
EDITS=[('PyEC4PyHT.py',"            thiscloud.MP_e.init_from_dict(initdict)\n            thiscloud.MP_e.set_nel_mp_ref(thiscloud.MP_e.nel_mp_ref_0)\n","            thiscloud.MP_e.init_from_dict(initdict)\n")]
NEEDS='a passage in which a regeneration changes the reference size of the macroparticles (slices that do not interact with the cloud), followed by another one'
BREAKS='secondaries and cleaning in the next passage use the macroparticle size of the one before'
DEMO=HT+'''
el = element()
mp = el.cloudsim.cloud_list[0].MP_e
ref = (mp.nel_mp_ref, mp.nel_mp_split, mp.nel_mp_cl_th)
b = Beam(); track(el, b)
mp.set_nel_mp_ref(7 * mp.nel_mp_ref)      # what a regeneration does
c = Beam(); track(el, c)
check((mp.nel_mp_ref, mp.nel_mp_split, mp.nel_mp_cl_th) == ref, "reference sizes %r instead of %r" % ((mp.nel_mp_ref, mp.nel_mp_split, mp.nel_mp_cl_th), ref))
check(np.array_equal(b.xp, c.xp), "the second passage differs")
'''
