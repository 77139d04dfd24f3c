"""Hamiltonian systems: the dynamics, the rollouts and the trajectory data sets of the experiments"""
from reflib import *
import jax
import jax.experimental.ode as ode
import os
import torch
import emlp.groups as groups

CALLS = []


def recorder(f, z0, T, *a, **k):
    """the ODE solver: what it is asked, and an unknown solution starting at z0"""
    z0 = jnp.asarray(z0)
    out = array(fresh_name('sol'), jnp.asarray(T).shape[0], *z0.shape)
    CALLS.append((f, z0, T, out, a, k))
    return out


ode.odeint = recorder
import trainer.hamiltonian_dynamics as hd


def quartic(d, tag=''):
    S = array('S' + tag, d, d)
    u = array('u' + tag, d)
    H = lambda z: 0.5 * (z @ S @ z) + (z @ u) ** 3 + jnp.sin(z[0]) * z[-1]

    def dH(z):
        e = np.eye(d)
        return 0.5 * (S @ z + S.T @ z) + 3 * (z @ u) ** 2 * u + jnp.cos(z[0]) * z[-1] * e[0] + jnp.sin(z[0]) * e[-1]
    return H, dH


def Jmat(d):
    n = d // 2
    return np.concatenate([np.concatenate([np.zeros((n, n)), np.eye(n)], 1), np.concatenate([-np.eye(n), np.zeros((n, n))], 1)], 0)


for lead_ in ((), (3,), (2, 3)):
    for d_ in (2, 4, 6):
        @scenario('P26', name='phase space coordinates %s' % str(lead_ + (d_,)))
        def coordinates(lead=lead_, d=d_):
            dense()
            z = array('z', *(lead + (d,)))
            q, p = hd.unpack(z)
            expect('positions and momenta have half the dimensions each', tuple(q.shape) == lead + (d // 2,) and tuple(p.shape) == lead + (d // 2,))
            expect_eq('the positions come first', q, z[..., :d // 2])
            expect_eq('the momenta come last', p, z[..., d // 2:])
            expect_eq('packing undoes unpacking', hd.pack(q, p), z)
            q1, p1 = hd.unpack(hd.pack(2 * p, q))
            expect_eq('unpacking undoes packing (positions)', q1, 2 * p)
            expect_eq('unpacking undoes packing (momenta)', p1, q)
            expect_eq('the symplectic form is multiplication by J', hd.symplectic_form(z), (Jmat(d) @ z[..., None])[..., 0])


for d_ in (3, 5):
    @scenario('P26', name='odd phase space %d' % d_)
    def odd(d=d_):
        dense()
        try:
            hd.unpack(array('z', d))
            refused = False
        except Exception:
            refused = True
        expect('an odd number of coordinates is refused', refused)


for d_ in (2, 4, 6):
    @scenario('P26', name='dynamics in dimension %d' % d_)
    def dynamics(d=d_):
        dense()
        H, dH = quartic(d)
        z = array('z', d)
        f = hd.hamiltonian_dynamics(H, z, array('t'))
        expect_eq('the velocity is J grad H', f, Jmat(d) @ dH(z))
        expect_eq('the energy is conserved', dH(z) @ f, 0 * (z @ z))


def check_call(d, bs, t, z0, T, F, out, transposed):
    """one call of the solver was made, for the velocity F, from z0, at the times T, and out is its answer"""
    expect('the solver is called once', len(CALLS) == 1)
    f, y0, TT, sol, a, k = CALLS[0]
    expect_eq('it starts at the initial conditions', y0, z0)
    expect_eq('at the requested times', TT, T)
    y = array('y', *z0.shape)
    v = f(y, array('time'))
    if bs is None:
        expect_eq('it integrates the given velocity', v, F(y))
        expect_eq('the solution is returned', out, sol)
        expect('one state per time', tuple(out.shape) == (t, d))
    else:
        for b in range(bs):
            expect_eq('every system of the batch follows the given velocity', v[b], F(y[b]))
        expect('(batch, time, state)', tuple(out.shape) == (bs, t, d))
        expect_eq('the solution is returned, batch first', out, sol.transpose((1, 0, 2)))
    if 'rtol' in k:
        expect('the tolerance is positive and small', 0 < k['rtol'] <= 1e-2)


for d_, bs_, t_ in ((2, 3, 2), (4, 2, 3), (4, 2, 2), (6, 1, 2)):
    @scenario('P26', name='single Hamiltonian flow %d %d' % (d_, t_))
    def flow(d=d_, t=t_):
        dense()
        H, dH = quartic(d)
        z0, T = array('z0', d), array('T', t)
        out = hd.HamiltonianFlow(H, z0, T)
        check_call(d, None, t, z0, T, lambda z: Jmat(d) @ dH(z), out, False)

    @scenario('P26', name='batched Hamiltonian flow %d %d %d' % (d_, bs_, t_))
    def bflow(d=d_, bs=bs_, t=t_):
        dense()
        H, dH = quartic(d)
        z0, T = array('z0', bs, d), array('T', t)
        out = hd.BHamiltonianFlow(H, z0, T)
        check_call(d, bs, t, z0, T, lambda z: Jmat(d) @ dH(z), out, True)

    @scenario('P26', name='batched flow of an ODE %d %d %d' % (d_, bs_, t_))
    def oflow(d=d_, bs=bs_, t=t_):
        dense()
        A = array('A', d, d)
        F = lambda z: A @ z + (z @ z) * z
        z0, T = array('z0', bs, d), array('T', t)
        out = hd.BOdeFlow(lambda z, t: F(z) , z0, T)
        check_call(d, bs, t, z0, T, F, out, True)


# ---------------------------------------------------------------- trajectory data sets
def disk():
    for k in list(torch.FILES):
        torch.FILES.pop(k)
    os.path.exists = lambda p: p in torch.FILES


class Toy(hd.HamiltonianDataset):
    """a system with an unknown quadratic Hamiltonian in two dimensions"""
    asked = []

    def H(self, z):
        return z @ array('S', 4, 4) @ z

    def sample_initial_conditions(self, bs):
        x = array(fresh_name('ic'), bs, 4)
        Toy.asked.append(x)
        return x


class Toy2(Toy):
    pass


def blank(cls):
    return cls.__new__(cls)


def fresh_run():
    dense()
    disk()
    del CALLS[:]
    del Toy.asked[:]


for n_, L_, c_ in ((3, 6, 2), (2, 6, 3), (2, 4, 4), (1, 5, 1), (2, 7, 3), (3, 5, 2), (2, 11, 4)):
    for mode_ in ('first', 'last', 'rev'):
        @scenario('P26', name='chunks of %d out of %d points (%d systems, %s)' % (c_, L_, n_, mode_))
        def chunks(n=n_, L=L_, c=c_, mode=mode_):
            fresh_run()
            pin_random(mode)
            zs = array('zs', n, L, 2)
            ds = blank(Toy)
            ok, Z = attempt('trajectories can be cut into chunks', lambda: ds.chunk_training_data(zs, c))
            if not ok:
                return
            expect('one chunk of the requested length per trajectory', tuple(Z.shape) == (n, c, 2))
            for i in range(n):
                expect_any('a chunk is a run of consecutive points of its own trajectory',
                           Z[i], [zs[i, s:s + c] for s in range(L - c + 1)])


for n_, bs_ in ((2, 3), (3, 3), (5, 2), (4, 2)):
    @scenario('P26', name='generating %d trajectories in batches of %d' % (n_, bs_))
    def generate(n=n_, bs=bs_):
        fresh_run()
        ds = blank(Toy)
        zs = ds.generate_trajectory_data(n, 1, 3, bs=bs)
        expect('as many trajectories as systems, a point per time', tuple(zs.shape) == (n, 3, 4))
        k = 0
        for (f, z0, T, sol, a, kw), ic in zip(CALLS, Toy.asked):
            expect_eq('every rollout starts at drawn initial conditions', z0, ic)
            expect_eq('the times are dt apart, starting at zero', T, np.array([0, 1, 2]))
            y = array('y', *z0.shape)
            v = f(y, array('time'))
            S = array('S', 4, 4)
            for b in range(z0.shape[0]):
                expect_eq('the trajectories follow the system', v[b], Jmat(4) @ ((S + S.T) @ y[b]))
                if k < n:
                    expect_eq('the trajectories are the rollouts', zs[k], sol[:, b])
                    k = k + 1
        expect('every trajectory is a rollout', k == n)


for c_, dt_, T_ in ((2, 1, 6), (3, 1, 6), (5, 0.2, 4), (2, 0.25, 3), (3, 0.1, 0.6), (3, 0.2, 2.4), (7, 0.1, 1.4)):
    @scenario('P26', name='data set of chunks of %d, dt %s, %s long' % (c_, dt_, T_))
    def data(c=c_, dt=dt_, T=T_):
        fresh_run()
        pin_random('first')
        n = 3
        ok, ds = attempt('the data set can be made', lambda: Toy(n_systems=n, chunk_len=c, dt=dt, integration_time=T))
        if not ok:
            return
        expect('as many elements as systems', len(ds) == n)
        for i in range(n):
            (z0, t), Z = ds[i]
            expect('the target has a state for each of the requested points', tuple(Z.shape) == (c, 4))
            expect('there is a time for each point of the target', tuple(t.shape) == (c,))
            expect_eq('the initial condition is the first point', z0, Z[0])
            for j in range(c):
                expect_close('the points are dt apart in time', t[j], j * dt)
            expect_any('the target is part of a rollout', Z, [sol[s:s + c, b] for (f, y0, TT, sol, a, k) in CALLS
                                                             for b in range(y0.shape[0]) for s in range(sol.shape[0] - c + 1)])


A_ = dict(n_systems=2, chunk_len=2, dt=1, integration_time=6)
CH_ = {'nothing': {}, 'n_systems': {'n_systems': 3}, 'chunk_len': {'chunk_len': 3}, 'dt': {'dt': 2}, 'integration_time': {'integration_time': 4}}
for what_, upd_ in CH_.items():
    @scenario('P26', name='cached trajectories, changing %s' % what_)
    def cached(what=what_, upd=upd_):
        fresh_run()
        pin_random('first')
        a = Toy(**A_)
        before = len(CALLS)
        kw = dict(A_)
        kw.update(upd)
        b = Toy(**kw)
        if what == 'nothing':
            expect('a second data set with the same arguments reads the first one\'s trajectories', len(CALLS) == before)
            expect_eq('and has the same elements', b.Zs, a.Zs)
        else:
            expect('a data set with other arguments does not reuse the trajectories', len(CALLS) > before)
        expect('it has the shape asked for', tuple(b.Zs.shape) == (kw['n_systems'], kw['chunk_len'], 4))
        c = Toy(**A_)
        expect_eq('the first data set can be read back', c.Zs, a.Zs)


@scenario('P26', name='cached trajectories of another system')
def other_system():
    fresh_run()
    pin_random('first')
    a = Toy(**A_)
    before = len(CALLS)
    b = Toy2(**A_)
    expect('another system does not reuse the trajectories', len(CALLS) > before)


@scenario('P26', name='regenerating trajectories')
def regenerated():
    fresh_run()
    pin_random('first')
    a = Toy(**A_)
    before = len(CALLS)
    b = Toy(regen=True, **A_)
    expect('asking for regeneration generates', len(CALLS) > before)
    c = Toy(**A_)
    expect_eq('and replaces the stored trajectories', c.Zs, b.Zs)


# ---------------------------------------------------------------- the concrete systems
@scenario('P26', name='harmonic oscillator')
def sho():
    fresh_run()
    ds = blank(hd.SHO)
    z = array('z', 2)
    expect_eq('H = (p^2 + q^2)/2', ds.H(z), (z[0] ** 2 + z[1] ** 2) / 2)
    expect_eq('it rotates phase space', hd.hamiltonian_dynamics(ds.H, z, 0), jnp.stack([z[1], -z[0]]))
    expect('initial conditions are points of phase space', tuple(ds.sample_initial_conditions(3).shape) == (3, 2))


ELEMS_ = {'a rotation': np.array([[3, -4, 0], [4, 3, 0], [0, 0, 5]]) / 5, 'another rotation': np.array([[-5, 12, 0], [-12, -5, 0], [0, 0, 13]]) / 13,
          'a reflection': np.array([[3, 4, 0], [4, -3, 0], [0, 0, 5]]) / 5}


def pendulum():
    fresh_run()
    pin_random('first')
    return hd.DoubleSpringPendulum(n_systems=2, chunk_len=2, dt=1, integration_time=4)


def energy(z):
    x1, x2, p1, p2 = z[0:3], z[3:6], z[6:9], z[9:12]
    r = lambda x: jnp.sqrt((x ** 2).sum())
    return (p1 @ p1 + p2 @ p2) / 2 + (r(x1) - 1) ** 2 / 2 + (r(x1 - x2) - 1) ** 2 + x1[2] + x2[2]


@scenario('P26', name='double spring pendulum')
def dsp():
    ds = pendulum()
    z = array('z', 12)
    # the coupling and mass constants are the maintainers' choice; the form of the energy is not
    expect_eq('kinetic energy is quadratic in the momenta', ds.H(z) - ds.H(z * np.array([1] * 6 + [0] * 6)), (z[6:] ** 2).sum() / 2)
    expect('initial conditions are points of phase space', tuple(ds.sample_initial_conditions(5).shape) == (5, 12))
    expect('the input representation has the size of a state', ds.rep_in(ds.symmetry).size() == 12)
    expect('the output representation is a scalar', ds.rep_out(ds.symmetry) == Scalar(ds.symmetry))
    expect('standardisation statistics leave states as they are', tuple(ds.stats) == (0, 1, 0, 1))


for nm_, g_ in ELEMS_.items():
    @scenario('P26', name='double spring pendulum under %s' % nm_)
    def dspinv(g=g_):
        ds = pendulum()
        z = array('z', 12)
        rho = ds.rep_in(ds.symmetry).rho_dense(g)
        expect_eq('the energy is invariant under the declared symmetry', ds.H(rho @ z), ds.H(z))


@scenario('P26', name='double spring pendulum, declared symmetry')
def dspsym():
    ds = pendulum()
    G = ds.symmetry
    z = array('z', 12)
    rep = ds.rep_in(G)
    grad = jax.grad(ds.H)(z)
    for A in G.lie_algebra:
        expect_eq('the energy is invariant under every generator', grad @ (rep.drho_dense(A) @ z), 0 * (z @ z))
    for h in G.discrete_generators:
        expect_eq('the energy is invariant under every discrete generator', ds.H(rep.rho_dense(h) @ z), ds.H(z))


# ---------------------------------------------------------------- errors of rollouts
for sh_ in ((3,), (2, 2)):
    @scenario('P26', name='relative error %s' % str(sh_))
    def relerr(sh=sh_):
        dense()
        a, b = array('a', *sh), array('b', *sh)
        r = lambda x: jnp.sqrt((x ** 2).mean())
        expect_eq('rms of the difference over the sum of the rms', hd.rel_err(a, b), r(a - b) / (r(a) + r(b)))
        expect_eq('it is symmetric', hd.rel_err(b, a), hd.rel_err(a, b))
        expect_eq('it vanishes on equal arguments', hd.rel_err(a, a), 0 * a.sum())


class Sys(object):
    def __init__(self):
        self.T_long = array('Tl', 2)
        self.H = quartic(2, 'gt')[0]


def model_of(ode_):
    if ode_:
        A = array('A', 2, 2)
        return (lambda z, t: A @ z), (lambda z: A @ z)
    H, dH = quartic(2, 'm')
    return H, (lambda z: Jmat(2) @ dH(z))


for ode_ in (False, True):
    @scenario('P26', name='rollouts of a %s model' % ('neural ODE' if ode_ else 'Hamiltonian'))
    def rollouts(ode=ode_):
        dense()
        del CALLS[:]
        ds = Sys()
        m, F = model_of(ode)
        z0 = array('z0', 2, 2)
        mb = ((z0, array('t', 2, 3)), array('y', 2, 3, 2))
        r = (hd.pred_and_gt_ode if ode else hd.pred_and_gt)(ds, m, mb)
        expect('prediction and truth, per system and time', tuple(r.shape) == (2, 2, 2, 2))
        expect('two rollouts are made', len(CALLS) == 2)
        dGT = quartic(2, 'gt')[1]
        y = array('y_', 2, 2)
        for (f, y0, T, sol, a, k), G, i in zip(CALLS, (F, lambda z: Jmat(2) @ dGT(z)), (0, 1)):
            expect_eq('from the initial conditions of the batch', y0, z0)
            expect_eq('over the long horizon', T, ds.T_long)
            v = f(y, 0)
            for b in range(2):
                expect_eq('prediction by the model and truth by the system', v[b], G(y[b]))
            expect_eq('prediction first, truth second', r[..., i], sol.transpose((1, 0, 2)))

    @scenario('P26', name='rollout error of a %s model' % ('neural ODE' if ode_ else 'Hamiltonian'))
    def rollout_error(ode=ode_):
        dense()
        del CALLS[:]
        ds = Sys()
        m, F = model_of(ode)
        z0 = array('z0', 2, 2)
        mb = ((z0, array('t', 2, 3)), array('y', 2, 3, 2))
        e = (hd.log_rollout_error_ode if ode else hd.log_rollout_error)(ds, m, mb)
        expect('two rollouts are made', len(CALLS) == 2)
        dGT = quartic(2, 'gt')[1]
        y = array('y_', 2, 2)
        sols = []
        for (f, y0, T, sol, a, k), G in zip(CALLS, (F, lambda z: Jmat(2) @ dGT(z))):
            expect_eq('from the initial conditions of the batch', y0, z0)
            expect_eq('over the long horizon', T, ds.T_long)
            v = f(y, 0)
            for b in range(2):
                expect_eq('one by the model and one by the system', v[b], G(y[b]))
            sols.append(sol)
        r = lambda x: jnp.sqrt((x ** 2).mean())
        tot = 0
        for b in range(2):
            for t in range(2):
                p, q = sols[0][t, b], sols[1][t, b]
                tot = tot + jnp.log(jnp.maximum(r(p - q) / (r(p) + r(q)), 1e-7))
        expect_eq('the mean log of the relative errors', e, tot / 4)
