import pathlib
import pickle
import warnings
import scipy.io as sio
import numpy as np
from hyvr.utils import print_to_stdout

def _custom_formatwarning(msg, *args, **kwargs):
    return str(msg) + '\n'
warnings.formatwarning = _custom_formatwarning

def create_outputs(model, realization_dir, runname, formats):
    output_desc = {'mat': to_mat, 'py': to_pickle, 'npz': to_npz, 'h5': to_hdf5, 'vtr': to_vtr, 'mf': to_modflow, 'mf6': to_mf6, 'hgs': to_hgs}
    for fmt in formats:
        if fmt not in output_desc:
            raise ValueError('No such output format: ' + fmt)
        fname = pathlib.Path(realization_dir) / runname
        try:
            output_desc[fmt](model, str(fname.resolve()))
        except ImportError as e:
            warnings.warn(str(e))
        else:
            print_to_stdout('Saved', fmt, 'output to', realization_dir)

def to_mat(model, fname):
    sio.savemat(fname + '.mat', model.data)

def to_pickle(model, fname):
    with open(fname + '.pickle', 'wb') as outfile:
        pickle.dump(model.data, outfile, protocol=pickle.HIGHEST_PROTOCOL)

def to_npz(model, fname):
    np.savez_compressed(fname + '.npz', **model.data)

def to_hdf5(model, fname):
    try:
        import h5py
        with h5py.File(fname + '.h5', 'w') as hf:
            for key in model.data:
                hf.create_dataset(key, data=model.data[key], compression=True)
    except ImportError as e:
        raise type(e)(str(e) + ', h5 output not possible!')

def to_vtr(model, fname):
    try:
        from pyevtk.hl import gridToVTK
        data_dict = {key: model.data[key] for key in model.data if key != 'ktensors'}
        xv = model.grid.x0 + model.grid.dx * np.arange(model.grid.nx + 1)
        yv = model.grid.y0 + model.grid.dy * np.arange(model.grid.ny + 1)
        zv = model.grid.z0 + model.grid.dz * np.arange(model.grid.nz + 1)
        gridToVTK(fname, xv, yv, zv, cellData=data_dict)
    except ImportError as e:
        raise type(e)(str(e) + ', vtr output not possible!')

def to_modflow(model, fname):
    try:
        import flopy
    except ImportError as e:
        raise type(e)(str(e) + ', modflow output not possible!')
    realization_dir = pathlib.Path(fname).parent
    runname = pathlib.Path(fname).name
    mfdir = realization_dir / 'MODFLOW'
    mfdir.mkdir(parents=True, exist_ok=True)
    mfname = str(mfdir / runname)
    mf = flopy.modflow.Modflow(mfname, exe_name='mf2005')
    ztop = model.grid.z0 + model.grid.lz
    zbot = model.grid.z0
    botm = np.linspace(ztop, zbot, model.grid.nz + 1)
    dis = flopy.modflow.ModflowDis(mf, model.grid.nz, model.grid.ny, model.grid.nx, delr=model.grid.dx, delc=model.grid.dy, top=ztop, botm=botm[1:])
    ibound = np.ones((model.grid.nz, model.grid.ny, model.grid.nx), dtype=np.int32)
    ibound[:, :, 0] = -1
    ibound[:, :, -1] = -1
    strt = np.ones((model.grid.nz, model.grid.ny, model.grid.nx), dtype=np.float32)
    strt[:, :, 0] = model.flowtrans['hin'][0]
    strt[:, :, -1] = model.flowtrans['hout'][0]
    bas = flopy.modflow.ModflowBas(mf, ibound=ibound, strt=strt)
    hyvr_hk = np.transpose(model.data['k_iso'], (2, 1, 0))[::-1]
    hyvr_layvka = 1
    if 'anirat' in model.data.keys():
        hyvr_vka = np.transpose(model.data['anirat'], (2, 1, 0))[::-1]
        lpf = flopy.modflow.ModflowLpf(mf, hk=hyvr_hk, layvka=hyvr_layvka, vka=hyvr_vka)
    else:
        lpf = flopy.modflow.ModflowLpf(mf, hk=hyvr_hk)
    oc = flopy.modflow.ModflowOc(mf)
    pcg = flopy.modflow.ModflowPcg(mf)
    mf.write_input()

def to_mf6(model, fname):
    try:
        import flopy
    except ImportError as e:
        raise type(e)(str(e) + ', mf6 output not possible!')
    realization_dir = pathlib.Path(fname).parent
    runname = pathlib.Path(fname).name
    mfdir = realization_dir / 'mf6'
    mfdir.mkdir(parents=True, exist_ok=True)
    mfname = str(mfdir / runname)
    transpose_order = (2, 1, 0)
    k_iso = np.transpose(model.data['k_iso'], transpose_order)[::-1]
    if set(['anirat', 'dip', 'azim']).issubset(model.data.keys()):
        anirat = np.transpose(model.data['anirat'], transpose_order)[::-1]
        dip = np.transpose(model.data['dip'], transpose_order)[::-1]
        azim = np.transpose(model.data['azim'], transpose_order)[::-1]
        xt3d = True
    else:
        xt3d = False
    ' create simulation '
    sim = flopy.mf6.MFSimulation(sim_name=runname, version='mf6', exe_name='mf6', sim_ws=str(mfdir))
    ' Create the Flopy temporal discretization object - STEADY-STATE '
    tdis = flopy.mf6.modflow.mftdis.ModflowTdis(sim, time_units='DAYS')
    ' create gwf model '
    gwf = flopy.mf6.MFModel(sim, modelname=runname)
    ims = flopy.mf6.ModflowIms(sim, print_option='SUMMARY', complexity='COMPLEX', outer_hclose=0.001, outer_maximum=500, under_relaxation='NONE', inner_maximum=100, inner_hclose=0.0001, rcloserecord=0.001, linear_acceleration='BICGSTAB', scaling_method='NONE', reordering_method='NONE', relaxation_factor=0.97)
    sim.register_ims_package(ims, [gwf.name])
    ' Create discretization '
    ztop = model.grid.z0 + model.grid.lz
    zbot = model.grid.z0
    botm = np.linspace(ztop, zbot, model.grid.nz + 1)
    dis = flopy.mf6.modflow.mfgwfdis.ModflowGwfdis(gwf, nlay=model.grid.nz, nrow=model.grid.ny, ncol=model.grid.nx, delr=model.grid.dx, delc=model.grid.dy, top=ztop, botm=botm[1:], filename='{}.dis'.format(runname))
    ' Create Node Property Flow package object '
    if xt3d is True:
        npf_package = flopy.mf6.ModflowGwfnpf(gwf, save_flows=True, icelltype=0, xt3doptions='', k=k_iso, k33=k_iso / anirat, angle1=azim, angle2=dip, angle3=np.zeros((model.grid.nz, model.grid.ny, model.grid.nx)))
    else:
        npf_package = flopy.mf6.ModflowGwfnpf(gwf, save_flows=True, icelltype=0, k=k_iso)
    ' Create constant head package '
    if model.flowtrans['hin'] is not None:
        hin = model.flowtrans['hin'][0]
        hout = model.flowtrans['hout'][0]
    elif model.flowtrans['gradh'] is not None:
        hout = 1
        hin = hout + model.grid.lx * model.flowtrans['gradh']
    if np.any([model.flowtrans['hin'] is not None, model.flowtrans['gradh'] is not None]):
        chd_rec = []
        for layer in range(0, model.grid.nz):
            for row in range(0, model.grid.ny):
                chd_rec.append(((layer, row, 0), hin))
                chd_rec.append(((layer, row, model.grid.nx - 1), hout))
        chd = flopy.mf6.modflow.mfgwfchd.ModflowGwfchd(gwf, maxbound=len(chd_rec), stress_period_data=chd_rec, save_flows=True)
    elif model.flowtrans['q_in'] is not None:
        ' Apply fixed head at model outlet if fixed head at inlet'
        hin = 1
        hout = 1
        chd_rec = []
        for layer in range(0, model.grid.nz):
            for row in range(0, model.grid.ny):
                chd_rec.append(((layer, row, model.grid.nx - 1), hout))
        chd = flopy.mf6.modflow.mfgwfchd.ModflowGwfchd(gwf, maxbound=len(chd_rec), stress_period_data=chd_rec, save_flows=True)
    else:
        hin = 1
        hout = 1
    ' Create the initial conditions package '
    hstart = np.ones_like(k_iso) * np.linspace(hin, hout, model.grid.nx)
    ic = flopy.mf6.modflow.mfgwfic.ModflowGwfic(gwf, strt=hstart)
    ' Create well package '
    if model.flowtrans['q_in'] is not None:
        q_in = model.flowtrans['q_in']
        wel_rec = []
        for layer in range(0, model.grid.nz):
            for row in range(0, model.grid.ny):
                wel_rec.append(((layer, row, 0), q_in, 'inlet'))
        wel = flopy.mf6.ModflowGwfwel(gwf, print_input=True, print_flows=True, save_flows=True, boundnames=True, maxbound=len(wel_rec), stress_period_data=wel_rec)
    ' Create the output control package '
    headfile = '{}.hds'.format(runname)
    head_filerecord = [headfile]
    budgetfile = '{}.cbc'.format(runname)
    budget_filerecord = [budgetfile]
    saverecord = [('HEAD', 'ALL'), ('BUDGET', 'ALL')]
    printrecord = [('HEAD', 'LAST')]
    oc = flopy.mf6.modflow.mfgwfoc.ModflowGwfoc(gwf, saverecord=saverecord, head_filerecord=head_filerecord, budget_filerecord=budget_filerecord, printrecord=printrecord)
    sim.write_simulation()

def to_hgs(model, fname):
    realization_dir = pathlib.Path(fname).parent
    runname = pathlib.Path(fname).name
    hgsdir = realization_dir / 'HGS'
    hgsdir.mkdir(parents=True, exist_ok=True)
    uid = np.arange(1, len(model.data['ktensors'][:, :, :, 1, 2].flatten()) + 1)
    vals_to_write = {'ktensors': np.column_stack((uid, model.data['ktensors'][:, :, :, 0, 0].flatten(), model.data['ktensors'][:, :, :, 1, 1].flatten(), model.data['ktensors'][:, :, :, 2, 2].flatten(), model.data['ktensors'][:, :, :, 0, 1].flatten(), model.data['ktensors'][:, :, :, 0, 2].flatten(), model.data['ktensors'][:, :, :, 1, 2].flatten())), 'porosity': np.column_stack((uid, model.data['poros'].flatten()))}
    val_fmts = {'ktensors': '%u %1.3e %1.3e %1.3e %1.3e %1.3e %1.3e', 'porosity': '%u %1.3f'}
    for val in vals_to_write:
        val_filepath = hgsdir / (val + '.txt')
        np.savetxt(val_filepath, vals_to_write[val], fmt=val_fmts[val])
