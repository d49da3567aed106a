# ------------------------------------------------------------------ printed reports
PMP = '    for param, value in zip(model.param_names, model.parameters):\n        print("{:0.4f}\\t{}".format(value, param))\n'
B("rp-sorted", "P39", (FI, PMP, '    for param, value in zip(sorted(model.param_names), model.parameters):\n        print("{:0.4f}\\t{}".format(value, param))\n'))
B("rp-free-only", "P39", (FI, PMP, '    for param, value in zip(model.param_names, model.parameters):\n        if model.fixed[param]:\n            continue\n        print("{:0.4f}\\t{}".format(value, param))\n'))
B("rp-skip-last", "P39", (FI, "zip(model.param_names, model.parameters)", "zip(model.param_names[:-1], model.parameters)"))
B("rp-abs", "P39", (FI, '"{:0.4f}\\t{}".format(value, param)', '"{:0.4f}\\t{}".format(abs(value), param)'))
B("rp-set", "P39", (FI, PMP, '    params = dict(zip(model.parameters, model.param_names))\n    for value, param in params.items():\n        print("{:0.4f}\\t{}".format(value, param))\n'))
B("rp-center", "P39", (FI, '"Center: ({}, {})".format(x_mean, y_mean)', '"Center: ({}, {})".format(y_mean, x_mean)'))
B("rp-mean", "P39", (FI, '    mean_fwhm = int(np.round(mean_fwhm))\n', '    mean_fwhm = int(mean_fwhm)\n'))
B("rp-plot-only", "P39", (FI, "    if printout:\n", "    if printout and plot:\n"))
B("rp-both", "P39", (FI, "    if printout:\n", "    if printout or plot:\n"))
B("rp-amp", "P39", (FI, '"Amplitude: {}".format(fitted_line.amplitude.value)', '"Amplitude: {}".format(image.max())'))
B("rp-silent-plot", "P38", (SG, "    if plot and segm:\n", "    if segm:\n"))
B("rp-twofig", "P38", (SG, "        plt.axvline(position[0], linestyle=\"--\", c=\"gray\")\n        plt.axvline(position[0] + r, alpha=0.5, c=\"gray\")\n        plt.axvline(position[0] - r, alpha=0.5, c=\"gray\")\n        plt.xlabel(\"Slice Along Y", "        plt.axvline(position[0] + r, alpha=0.5, c=\"gray\")\n        plt.axvline(position[0] - r, alpha=0.5, c=\"gray\")\n        plt.xlabel(\"Slice Along Y"))
