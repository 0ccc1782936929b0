"""C08 condensing heat exchanger"""
from sa import vg

LEVEL = 'other'
RULE = ('gated value-graph equality of the condensing heat exchanger: flows '
        'scaled, clipped and bypassed, outlet temperatures from the fitted '
        'model, mixing of the bypass, and the interface to the fitted model')
ASSUMPTIONS = ['the fitted regression itself is data, not checked']
FLOOR = 20

MODEL = '''
def features(x, idx, nvar, n):
    out = np.ones((n, idx.shape[0]))
    for k in range(out.shape[0]):
        for i in range(out.shape[1]):
            out[k, i] = out[k, i] * x[k][idx[i, :nvar[i]]].prod()
    return out

def predict(x, idx, nvar, n, mean, comp, icpt, coef):
    f = transform_to_poly_nb(x, idx, nvar, n)
    return icpt + np.dot(np.dot(f - mean, comp.T), coef.T)
'''

SOLVE = MODEL + '''
def solve(self, timestep):
    for i in range(self._port_link_idx.size):
        self._T_port.flat[i] = self.ports_all[self._port_link_idx[i]]
    x = self._X_pred
    x[:, :2] = self._T_port[::2]
    x[:, 2:] = self._dm_io / self._flow_scaling
    w = self._water_dm_range
    g = self._gas_dv_range
    too_much = False
    if w[0] != 0 and x[0, 2] < w[0]:
        x[0, 2] = round(x[0, 2] / w[0]) * w[0]
    elif x[0, 2] > w[1]:
        too_much = True
        excess = x[0, 2] - w[1]
        x[0, 2] = w[1]
    if g[0] != 0 and x[0, 3] < g[0]:
        x[0, 3] = round(x[0, 3] / g[0]) * g[0]
    elif x[0, 3] > g[1]:
        raise ValueError
    T = self.T
    if np.all(x[0, 2:] != 0):
        if x[0, 2] > 0.1:
            y = predict(x, self._poly_int_comb_idx,
                        self._poly_nvars_per_ftr, 1, self._pca_mean,
                        self._pca_components, self._lm_intercept,
                        self._lm_coef)
        else:
            y = condensing_hex_quad_poly(
                x, self._poly_int_comb_idx, self._poly_nvars_per_ftr,
                self._pca_mean, self._pca_components, self._lm_intercept,
                self._lm_coef, dm_water_thresh=0.1, dx=0.01)
        T[0, 0] = x[0, 0]
        T[1, 0] = y[0, 0]
        T[0, 1] = x[0, 1]
        T[1, 1] = y[0, 1]
    else:
        T[:, 0] = x[0, 0]
        T[:, 1] = x[0, 1]
    if too_much:
        cb = cp_water(x[0, 0]) * excess
        ch = cp_water(T[1, 0]) * w[1]
        T[1, 0] = (cb * x[0, 0] + ch * T[1, 0]) / (cb + ch)
    self.res[self.stepnum[0]] = T
    self.res_dm[self.stepnum[0]] = self._dm_io
'''

LOW = MODEL + '''
def low(X_pred, int_comb_idx, nvars_per_ftr, pca_mean, pca_components,
        lm_intercept, lm_coef, dm_water_thresh=0.1, dx=0.01):
    n = X_pred.shape[0]
    at = np.vstack((X_pred[:, 0], X_pred[:, 1],
                    np.full((X_pred.shape[0],), dm_water_thresh),
                    X_pred[:, 3])).T
    y = predict(at, int_comb_idx, nvars_per_ftr, n, pca_mean,
                pca_components, lm_intercept, lm_coef)
    c = np.array([[dm_water_thresh, dm_water_thresh]], dtype=np.float64)
    b = (np.expand_dims(X_pred[:, 1], -1) - y) / c**2
    return y + b * (X_pred[:, 2:3].copy() - dm_water_thresh)**2
'''

TRANSFORM = MODEL + '''
def f(X, int_comb_idx, nvars_per_ftr, n_samples):
    return features(X, int_comb_idx, nvars_per_ftr, n_samples)
'''

COMBS = '''
def combs(mdl, n_features=None, pipeline=True,
          poly_step='polynomialfeatures'):
    p = mdl.named_steps[poly_step] if pipeline else mdl
    if n_features is None:
        n_features = getattr(p, 'n_input_features_', None)
        if n_features is None:
            raise ValueError
    cs = tuple(p._combinations(n_features, p.degree, p.interaction_only,
                               p.include_bias))
    out = np.zeros((len(cs), len(cs[-1])), dtype=np.int64) - 99
    n = tuple([len(c) for c in cs])
    for i, c in enumerate(cs):
        out[i, :n[i]] = c
    return out, n
'''

PCA = '''
def pca(mdl, pipeline=True, pca_step='pca'):
    p = mdl.named_steps[pca_step] if pipeline else mdl
    return p.mean_, p.components_
'''

INIT = '''
def init(self, name, master_cls, **kwargs):
    assert 'regression_pipeline' in kwargs and isinstance(
        kwargs['regression_pipeline'], _skl.pipeline.Pipeline)
    self._linreg_mdl = kwargs['regression_pipeline']
    assert 'max_gas_Nm3h' in kwargs and isinstance(
        kwargs['max_gas_Nm3h'], (int, float)) and kwargs['max_gas_Nm3h'] > 0
    per_gas = 1.4285714285714285e-3
    if 'max_water_kgs' in kwargs:
        assert isinstance(kwargs['max_water_kgs'], (int, float)) and \\
            kwargs['max_water_kgs'] > 0
        per_gas = kwargs['max_water_kgs']
    self._flow_scaling = np.ones(2)
    self._flow_scaling[0] = per_gas * kwargs['max_gas_Nm3h']
    self._flow_scaling[1] = kwargs['max_gas_Nm3h'] / 3600
    for k in ('fluegas_flow_range', 'water_flow_range'):
        assert k in kwargs and isinstance(kwargs[k], (tuple, list)) and \\
            kwargs[k][0] >= 0 and kwargs[k][0] <= kwargs[k][1]
    self._gas_dv_range = np.empty(2)
    self._gas_dv_range[:] = kwargs['fluegas_flow_range']
    self._water_dm_range = np.empty(2)
    self._water_dm_range[:] = kwargs['water_flow_range']
    self.T = np.zeros((2, 2))
    self._T_port = np.zeros(4)
    self._dm_port = np.zeros(4)
    self._dm_io = np.zeros(2)
    self.port_num = 4
    self._port_own_idx = np.array([0, 2, 1, 3], dtype=np.int32)
    self._port_own_idx_2D = np.array([0, 2, 1, 3], dtype=np.int32)
    self.port_names = ('water_in', 'water_out', 'fluegas_in', 'fluegas_out')
    self.dm_char = ('in', 'out', 'in', 'out')
    self._X_pred = np.zeros((4,)).reshape(1, -1)
    self.solve_numeric = False
    self.is_actuator = False
    self.control_req = False
    self.dm_invariant = True
    self.multiple_flows = True
    self.affect_dm = False
    self.hydr_comp = False
    self.break_topology = False
    self._flow_net_parent = False
    self.initialized = False
'''

CHECK = '''
def _check_results(self):
    assert np.all(self.res > 0.0) and np.all(self.res < 150)
    assert np.all(self.res_dm >= 0.0)
    assert self.res_dm[:, 1].max() / self._flow_scaling[1] < \\
        self._gas_dv_range[1]
'''


def solve(ctx):
    o = dict(no_inline=['condensing_hex_quad_poly', 'transform_to_poly_nb'])
    R = ctx.run('parts.hex_condensing_polynome:HEXCondPoly.solve', **o)
    S = ctx.spec(SOLVE, like=R, module='precomp_funs',
                 cls=R.cls, **o)
    ctx.same(R, S, ['exc'])
    ctx.same_state(R, S, assume=vg.not_(R.st.exc))


def model(ctx):
    for name, text, o in (
            ('condensing_hex_quad_poly', LOW,
             dict(no_inline=['transform_to_poly_nb'])),
            ('transform_to_poly_nb', TRANSFORM, {}),
            ('make_poly_transf_combs_for_nb', COMBS, {}),
            ('extract_pca_results', PCA, {})):
        R = ctx.run('precomp_funs:' + name, **o)
        S = ctx.spec(text, like=R, **o)
        ctx.same(R, S, ['exc', 'ret'])


def setup(ctx):
    R = ctx.run('parts.hex_condensing_polynome:HEXCondPoly.__init__')
    S = ctx.spec(INIT, like=R)
    ctx.same(R, S, ['exc'])
    ctx.same_state(R, S, assume=vg.not_(R.st.exc))
    ctx.views(R, [('self._dm_sup', 'self._dm_io'),
                  ('self._dm_dmd', 'self._dm_io')])
    R = ctx.run('parts.hex_condensing_polynome:HEXCondPoly._check_results')
    ctx.same(R, ctx.spec(CHECK, like=R), ['exc'])


PARTS = [('solve', solve), ('model', model), ('setup', setup)]
