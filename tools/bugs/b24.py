exec(open('/tmp/p/plant/b/ht.py').read())
ID='C14-initial-clouds-shared-by-folder'; PROP='C14'
EDITS=[('PyEC4PyHT.py',"""from . import buildup_simulation as bsim
""","""from . import buildup_simulation as bsim

# initial distributions of the clouds, by input folder
_initial_clouds = {}
"""),('PyEC4PyHT.py',"""        self.initial_MP_e_clouds = [
            cl.MP_e.extract_dict() for cl in self.cloudsim.cloud_list
        ]
""","""        if pyecl_input_folder not in _initial_clouds:
            _initial_clouds[pyecl_input_folder] = [
                cl.MP_e.extract_dict() for cl in self.cloudsim.cloud_list
            ]
        self.initial_MP_e_clouds = _initial_clouds[pyecl_input_folder]
""")]
NEEDS='two elements built from the same input folder'
BREAKS='the second element starts every passage with the electrons of the first'
DEMO=HT+'''
alone = element("alone", seed=5)
a = Beam(); track(alone, a)
first = element("two", seed=3)
second = element("two", seed=5)
b = Beam(); track(second, b)
check(np.allclose(a.xp, b.xp, rtol=1e-12, atol=0), "another element in the process changes the kicks by up to %g" % np.abs(a.xp - b.xp).max())
'''
