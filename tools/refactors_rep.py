# ------------------------------------------------------------------ printed reports
R("rp-fstring", (FI, "print_model_params", '''
def print_model_params(model):
    """Print the params and values of an AstroPy model"""
    names, values = model.param_names, model.parameters
    for i in range(len(names)):
        print(f"{values[i]:.4f}\\t{names[i]}")
'''))
R("rp-helper", (FI, "print_model_params", '''
def _parameter_line(name, value):
    return "%0.4f\\t%s" % (value, name)


def print_model_params(model):
    """Print the params and values of an AstroPy model"""
    lines = [_parameter_line(name, value) for name, value in zip(model.param_names, model.parameters)]
    for line in lines:
        print(line)
'''))
R("rp-join", (FI, "print_model_params", '''
def print_model_params(model):
    """Print the params and values of an AstroPy model"""
    for param, value in zip(model.param_names, model.parameters):
        print("{:0.4f}".format(value), param, sep="\\t")
'''))
R("rp-enumerate", (FI, "print_model_params", '''
def print_model_params(model):
    """Print the params and values of an AstroPy model"""
    for i, param in enumerate(model.param_names):
        value = model.parameters[i]
        row = ("{:0.4f}".format(value), "{}".format(param))
        print("\\t".join(row))
'''))
R("rp-return-early", (FI, "print_model_params", '''
def print_model_params(model):
    """Print the params and values of an AstroPy model"""
    template = "{value:0.4f}\\t{name}"
    pairs = list(zip(model.param_names, model.parameters))
    while pairs:
        name, value = pairs.pop(0)
        print(template.format(value=value, name=name))
'''))
