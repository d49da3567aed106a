R("co-dr", (CR, "PetrosianCorrection._dr", '''
def _dr(self, x0, y0, z0):
    total = 0
    for weight, column, value in zip(self.weights, (self.x, self.y, self.z), (x0, y0, z0)):
        total = total + (weight * (column - value) / np.std(column)) ** 2
    return np.sqrt(total)
'''))
R("co-dr2", (CR, "PetrosianCorrection._dr", '''
@staticmethod
def _scaled(column, value, weight):
    return weight * (column - value) / column.std()

def _dr(self, x0, y0, z0):
    w = self.weights
    d = [self._scaled(c, v, w[i]) for i, (c, v) in enumerate(zip(self.r, (x0, y0, z0)))]
    return (d[0] ** 2 + d[1] ** 2 + d[2] ** 2) ** 0.5
'''))
R("co-xyz", (CR, "PetrosianCorrection._get_xyz_from_p", '''
def _get_xyz_from_p(self, p):
    p02, _ = calculate_petrosian_r(p.r_list, p.petrosian_list, eta=0.2)
    return [p02, p.r_half_light, p.c2080]
'''))
R("co-validate", (CR, "PetrosianCorrection._validate_input", '''
def _validate_input(self, x0, y0, z0):
    assert self.x.min() <= x0 <= self.x.max(), "r_petro(eta=0.2) is outside of the range of the grid"
    assert self.y.min() <= y0 <= self.y.max(), "r_50 is outside of the range of the grid"
    assert self.z.min() <= z0 and z0 <= self.z.max(), "C2080 is outside of the range of the grid"
'''))
R("co-validate-loop", (CR, "PetrosianCorrection._validate_input", '''
def _validate_input(self, x0, y0, z0):
    names = ("r_petro(eta=0.2)", "r_50", "C2080")
    for name, column, value in zip(names, (self.x, self.y, self.z), (x0, y0, z0)):
        assert np.min(column) <= value <= np.max(column), name + " is outside of the range of the grid"
'''))
R("co-closest", (CR, "PetrosianCorrection._closest_row", '''
def _closest_row(self, x0, y0, z0):
    if self.enforce_range:
        self._validate_input(x0, y0, z0)
    idx = np.argmin(self._dr(x0, y0, z0))
    return self.grid[idx]
'''), (CR, "PetrosianCorrection._get_corrected_row", '''
def _get_corrected_row(self, p):
    return self._closest_row(*self._get_xyz_from_p(p))
'''), (CR, "PetrosianCorrection.estimate_n", '''
def estimate_n(self, p):
    return self._get_corrected_row(p)['n']
'''))
R("co-epsilon-table", (CR, "PetrosianCorrection.estimate_epsilon", '''
def estimate_epsilon(self, p):
    row = self._get_corrected_row(p)
    columns = {0.5: 'c_r_50', 0.8: 'c_r_80', 0.99: 'c_r_99'}
    if p.epsilon_fraction not in columns:
        raise ValueError("Input epsilon_fraction={} is not supported, choose from [0.5, 0.8, 0.99]".format(p.epsilon_fraction))
    r_ep = row[columns[p.epsilon_fraction]]
    if p.eta not in self.eta_keys:
        raise ValueError("Input eta={} is not supported, choose from eta={}".format(p.eta, list(self.eta_keys)))
    return r_ep / row[self.eta_keys[p.eta]]
'''))
R("co-filter", (CR, "PetrosianCorrection.filter_grid", '''
def filter_grid(self, key, value):
    return self.grid[self.grid[key] == value]
'''), (CR, "PetrosianCorrection.unique_grid_values", '''
def unique_grid_values(self, key):
    column = self.grid[key]
    return np.array(np.unique(column))
'''))
R("co-init", (CR, "PetrosianCorrection.__init__", '''
def __init__(self, grid, enforce_range=True):
    if isinstance(grid, str):
        raise TypeError("Input grid should be an astropy Table use `PetrosianCorrection.read(file_path)`")
    if not isinstance(grid, Table):
        raise TypeError("Input grid should be an astropy Table")

    self.grid = grid
    self.enforce_range = enforce_range
    self.eta_keys = {eta: 'p0%d' % round(eta * 10) for eta in (0.2, 0.3, 0.4, 0.5)}
    self.x, self.y, self.z = [grid[key].value for key in ('p02', 'u_r_50', 'u_c2080')]
    self.r = [self.x, self.y, self.z]
    self.weights = np.array([100, 100, 100])
'''))
R("co-correct", (CR, "PetrosianCorrection.correct", '''
def correct(self, p):
    epsilon = self.estimate_epsilon(p)
    corrected = copy(p)
    corrected.epsilon = epsilon
    return corrected
'''), (CR, "PetrosianCorrection.read", '''
@classmethod
def read(cls, grid_file, file_format=None):
    return cls(grid=cls._read_grid_file(grid_file, file_format=file_format))
'''))
GRID = open(REPO + CR).read()
R("cg-split", (CR, '''    if max_r >= 200:
        r_list = [x for x in range(1, 200 + 1, 2)]
        r_list += [x for x in range(300, int(max_r) + 100, 100)]
    else:
        r_list = [x for x in range(1, int(max_r) + 2, 2)]
    r_list = np.array(r_list)
''' if '''range(1, 200 + 1, 2)''' in GRID else '''    if max_r >= 200:
        r_list = [x for x in range(1, 201, 2)]
        r_list += [x for x in range(300, int(max_r) + 100, 100)]
    else:
        r_list = [x for x in range(1, int(max_r) + 2, 2)]
    r_list = np.array(r_list)
''', '''    r_list = _sampling(max_r)
''', 'text'), (CR, '''def _generate_petrosian_correction(args):
''', '''def _sampling(max_r):
    if max_r < 200:
        return np.array(list(range(1, int(max_r) + 2, 2)))
    return np.array(list(range(1, 201, 2)) + list(range(300, int(max_r) + 100, 100)))


def _generate_petrosian_correction(args):
''', 'text'))
R("cg-product", (CR, '''    args = []
    for n_idx, n in enumerate(n_list):
        for r_eff_idx, r_eff in enumerate(r_eff_list):
            args.append([r_eff, n, psf, oversample, psf_oversample, plot])
''', '''    args = [[r_eff, n, psf, oversample, psf_oversample, plot] for n in n_list for r_eff in r_eff_list]
''', 'text'), (CR, '''            rows = []
            for arg in args:
                row = _generate_petrosian_correction(arg)
                rows.append(row)
                bar.update()
''', '''            rows = []
            for i in range(len(args)):
                rows.append(_generate_petrosian_correction(args[i]))
                bar.update()
''', 'text'))
R("cg-radii", (CR, '''    petrosian_list = calculate_petrosian(p.area_list, p.flux_list)[0]
''', '''    petrosian_list, _ = calculate_petrosian(p.area_list, p.flux_list)
''', 'text'), (CR, "np.any(np.isnan(np.array([rc1, rc2, c_index])))", "np.isnan(rc1) or np.isnan(rc2) or np.isnan(c_index)", 'text'),
  (CR, "copy(p)\n    corrected_p.epsilon = corrected_epsilon", "copy(p)\n    setattr(corrected_p, 'epsilon', corrected_epsilon)", 'text'),
  (CR, '''    galaxy_model = models.Sersic2D(''', '''    center = (x_0, y_0)
    galaxy_model = models.Sersic2D(''', 'text'), (CR, "center=(x_0, y_0)", "center=center", 'text'))
