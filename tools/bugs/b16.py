ID='C24-first-segment-in-the-list'; PROP='C24'
EDITS=[('geom_impact_poly_cython.pyx',"                if t_ii>=0. and t_ii<t_min_curr:\n                    t_min_curr=t_ii\n                    fould_curr = True\n                    i_found_curr = ii\n",
"                if t_ii>=0. and t_ii<t_min_curr:\n                    t_min_curr=t_ii\n                    fould_curr = True\n                    i_found_curr = ii\n                    break\n")]
NEEDS='a chamber that is not convex and an electron whose way in a time step crosses the wall more than once'
BREAKS='the impact is booked on the first segment of the list that the way crosses, behind the wall that was met first'
DEMO='''from kit import *
import scipy.io as sio
# a U-shaped chamber: a post enters from the bottom
vx = np.array([2., 2., -2., -2., -.5, -.5, .5, .5]) * 1e-2
vy = np.array([-2., 2., 2., -2., -2., 1., 1., -2.]) * 1e-2
f = os.path.join(TOP, "c.mat")
sio.savemat(f, dict(Vx=vx, Vy=vy, x_sem_ellip_insc=1e-4, y_sem_ellip_insc=1e-4), oned_as="row")
from PyECLOUD.geom_impact_poly_fast_impact import polyg_cham_geom_object as P
with quiet():
    try:
        ch = P(dict(Vx=vx, Vy=vy, x_sem_ellip_insc=1e-4, y_sem_ellip_insc=1e-4), False, flag_assume_convex=False)
    except Exception:
        ch = P(f, False, flag_assume_convex=False)
u = np.random.RandomState(3)
n = 200
yi, yo = -1.8e-2 + 2e-2 * u.rand(n), -1.8e-2 + 2e-2 * u.rand(n)
for sg in (1., -1.):
    x0, x1 = sg * 1.2e-2 * np.ones(n), -sg * 2.5e-2 * np.ones(n)     # through the post and out on the other side
    with quiet():
        x, y, z, nx, ny, i = ch.impact_point_and_normal(x0, yi, 0 * x0, x1, yo, 0 * x0, resc_fac=1., flag_robust=False)
    check(np.max(np.abs(x - sg * .5e-2)) < 1e-6 and np.all(nx == sg), "the impact is not on the side of the post that was hit: x=%g..%g" % (x.min(), x.max()))
'''
