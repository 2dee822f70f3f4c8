import os
import hyvr.utils as hu
import hyvr.optimized as ho
import hyvr.input.parameters as hp
from hyvr.postprocess.output import create_outputs
from hyvr.assign_points import assign_points

def run(inifile, flag_ow=None):
    run_settings, model, hydraulics = hp.setup_from_inifile(inifile, flag_ow=flag_ow)
    for sim in range(1, int(run_settings['numsim']) + 1):
        model.generate_model()
        assign_points(model)
        if model.generate_hydraulics is True:
            model.generate_hydraulic_parameters(hydraulics)
        if run_settings['numsim'] > 1:
            realdir = run_settings['rundir'] / 'real_{:03d}'.format(sim)
        else:
            realdir = run_settings['rundir']
        realdir.mkdir(parents=True, exist_ok=True)
        create_outputs(model, realdir, run_settings['runname'], run_settings['outputs'])
    if inifile == 0:
        import shutil
        runpath = run_settings['rundir']
        if runpath.exists():
            shutil.rmtree(runpath)
