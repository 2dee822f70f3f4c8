import os
import pathlib
import sys
import shutil
import configparser as cp
from hyvr.utils import print_to_stdout
from hyvr.input.options import options
from hyvr.input.options_deprecated import options as old_options
from hyvr.input.option_parsing import *
from hyvr.geo.model import Model
from hyvr.geo.contact_surface_utils import parse_contact_model

def setup_from_inifile(inifile, flag_ow):
    run, model_dict, strata_dict, hydraulics, flowtrans, elements = parameters(inifile)
    for element in elements.keys():
        elements[element]['ae_id'] = strata_dict['ae'].index(element)
    model = Model(model_dict, strata_dict, elements, flowtrans)
    set_up_directories(run, inifile, flag_ow)
    return (run, model, hydraulics)

def parameters(inifile):
    print_to_stdout('Reading parameter file')
    if inifile == 0:
        from pkg_resources import resource_filename
        inifile = resource_filename(__name__, str(pathlib.Path('../made.ini')))
    p = cp.ConfigParser()
    try:
        p.read(inifile, encoding='utf-8')
    except cp.MissingSectionHeaderError:
        p.read(inifile, encoding='utf-8-sig')
    if len(p.sections()) == 0:
        raise FileNotFoundError('Parameter file {:s} not found!'.format(str(inifile)))
    if 'run' not in p.sections():
        raise MissingSectionError('run')
    old_format = 'dataoutputs' in p['run'] or 'l_dataoutputs' in p['run']
    if old_format:
        run, model, strata, hydraulics, flowtrans, elements = get_new_parameters_from_deprecated(*parse_deprecated_inifile(p))
    else:
        run, model, strata, hydraulics, flowtrans, elements = parse_inifile(p)
    ini_path = pathlib.Path(inifile).parent.resolve()
    ini_name = pathlib.Path(inifile).name
    if run['runname'] is None:
        if ini_name.endswith('_autogenerated_backup.ini'):
            run['runname'] = ini_name[0:-25]
        else:
            run['runname'] = '.'.join(ini_name.split('.')[0:-1])
    if ini_name.endswith('_autogenerated_backup.ini'):
        run['modeldir'] = ini_path.parent.resolve()
        run['rundir'] = ini_path
    else:
        if run['modeldir'] is None:
            run['modeldir'] = ini_path
        if run['modeldir'] == 'select':
            directory = input('Please input the model directory save path, or press <enter> tosave in default directory:\n')
            if len(directory) == 0:
                run['modeldir'] = ini_path
            else:
                run['modeldir'] = pathlib.Path(directory).resolve()
        run['modeldir'] = pathlib.Path(run['modeldir']).resolve()
        run['rundir'] = run['modeldir'] / run['runname']
    return (run, model, strata, hydraulics, flowtrans, elements)

def parse_inifile(p):
    str_values = ('k_trend', 'linear_acceleration')
    sections = p.sections()
    section_parser = {}
    must_haves = ['run', 'model', 'strata', 'hydraulics']
    for section in must_haves:
        if section not in sections:
            raise MissingSectionError(section)
    run = Section('run', options['run']).parse(dict(p['run']))
    del sections[sections.index('run')]
    hydraulics = Section('hydraulics', options['hydraulics']).parse(dict(p['hydraulics']))
    del sections[sections.index('hydraulics')]
    model = Section('model', options['model']).parse(dict(p['model']))
    del sections[sections.index('model')]
    if model['dy'] == None:
        model['dy'] = model['dx']
    if model['dz'] == None:
        model['dz'] = model['dx']
    strata = Section('strata', options['strata']).parse(dict(p['strata']))
    del sections[sections.index('strata')]
    if len(strata['strata_contact_models']) != len(strata['strata']) - 1:
        raise ShapeError('strata_contact_models', 'strata')
    strata['contact_models'] = [parse_contact_model(model, depth=True) for model in strata['strata_contact_models']]
    try:
        strata['bg_facies'] = parse_facies(strata['bg_facies'], hydraulics['hydrofacies'])
    except:
        raise ValueError('Invalid facies string in strata section in option bg_facies: ' + str(strata['bg_facies']))
    for output in ['mf', 'mf6', 'hgs']:
        if output in run['outputs']:
            if 'flowtrans' not in sections:
                raise MissingSectionError('flowtrans')
            break
    if 'flowtrans' in sections:
        flowtrans = Section('flowtrans', options['flowtrans']).parse(dict(p['flowtrans']))
        del sections[sections.index('flowtrans')]
    else:
        flowtrans = {}
    elements = {}
    for section in sections:
        dictionary = dict(p[section])
        assert_exists('geometry', dictionary, section)
        geometry = dictionary['geometry']
        if geometry not in ['trough', 'channel', 'sheet']:
            raise ValueError('Invalid geometry: ' + geometry + ' in section ' + section)
        elements[section] = Section(section, options[geometry]).parse(dict(p[section]))
        elements[section]['contact_model'] = parse_contact_model(elements[section]['contact_model'], depth=False)
        try:
            elements[section]['facies'] = parse_facies(elements[section]['facies'], hydraulics['hydrofacies'])
        except:
            raise ValueError('Invalid facies string in section ' + section + ' in option facies!')
        if elements[section]['altfacies'] is not None:
            try:
                elements[section]['altfacies'] = [parse_facies(facies_list, hydraulics['hydrofacies']) for facies_list in elements[section]['altfacies']]
            except:
                raise ValueError('Invalid facies string in section ' + section + ' in option altfacies!')
        if elements[section]['bg_facies'] == None:
            elements[section]['bg_facies'] = -1
        else:
            try:
                elements[section]['bg_facies'] = hydraulics['hydrofacies'].index(elements[section]['bg_facies'])
            except:
                raise ValueError('Invalid facies in section ' + section + ' in option bg_facies: ', elements[section]['bg_facies'])
        if elements[section]['structure'] == 'dip' or elements[section]['structure'] == 'random':
            assert_exists('dipset_dist', dictionary, section)
        if elements[section]['structure'] == 'bulb_sets' or elements[section]['structure'] == 'random':
            assert_exists('bulbset_dist', dictionary, section)
        if geometry in ['trough', 'channel']:
            if elements[section]['lag_height'] != 0.0:
                try:
                    elements[section]['lag_facies'] = hydraulics['hydrofacies'].index(elements[section]['lag_facies'])
                except:
                    raise ValueError('lag_facies in section ' + section + ' is invalid!')
            else:
                elements[section]['lag_facies'] = -1
    return (run, model, strata, hydraulics, flowtrans, elements)

def get_new_parameters_from_deprecated(run, model, strata, hydraulics, flowtrans, elements):
    run['outputs'] = run['modeloutputs'] + run['dataoutputs']
    run['overwrite_old_output'] = run['flag_ow']
    hydraulics['hydrofacies'] = hydraulics['hydro']
    model['anisotropy'] = run['anisotropy']
    model['hydraulics'] = hydraulics['gen']
    model['heterogeneity'] = run['het']
    model['heterogeneity_level'] = model['hetlev']
    if model['hetlev'] == 'ae':
        raise ValueError('heterogeneity level "ae" is not supported anymore')
    if model['display']:
        raise ValueError('display option is not supported anymore')
    n_strata = len(strata['ssm'])
    strata['bg_facies'] = [int(strata['bg'][0])] * n_strata
    strata['bg_azim'] = [strata['bg'][1]] * n_strata
    strata['bg_dip'] = [strata['bg'][2]] * n_strata
    strata['strata'] = strata['ssm']
    if strata['ae_table'] is not None:
        raise ValueError('AE tables are not supported anymore!')
    if strata['save_aelu']:
        raise ValueError('save_aelu is not supported anymore!')
    contact_models = []
    for i in range(n_strata - 1):
        cm = parse_old_strata_contact_model(strata, i)
        contact_models.append(cm)
    strata['contact_models'] = contact_models
    strata['ae_in_strata'] = strata['ssm_ae']
    for elem_name in elements:
        elem = elements[elem_name]
        elem['size_ztrend'] = elem['geo_ztrend']
        if elem['bg'] is not None:
            elem['bg_facies'] = int(elem['bg'][0])
            elem['bg_azim'] = elem['bg'][1]
            elem['bg_dip'] = elem['bg'][2]
        else:
            elem['bg_facies'] = -1
            elem['bg_azim'] = float('NaN')
            elem['bg_dip'] = float('NaN')
        elem['dipset_dist'] = elem['dipset_d']
        if 'bulbset_d' in elem:
            elem['bulbset_dist'] = elem['bulbset_d']
        if elem['geometry'] == 'trunc_ellip':
            elem['geometry'] = 'trough'
            elem['trough_density'] = elem['el_z']
            if elem['structure'] == 'bulb_l':
                elem['structure'] = 'bulb_sets'
        elif elem['geometry'] == 'ext_par':
            elem['geometry'] = 'channel'
            elem['channel_no'] = int(elem['channel_no'])
            elem['azimuth'] = [0.0, 0.0]
            elem['mig'] = 0.0
            elem['flow_angle'] = 0.0
        elem['contact_model'] = parse_old_elem_contact_model(elem)
        if elem['geometry'] in ['trough', 'channel']:
            if elem['lag'] is not None:
                elem['lag_height'] = elem['lag'][0]
                elem['lag_facies'] = int(elem['lag'][1])
            else:
                elem['lag_height'] = 0.0
                elem['lag_facies'] = -1
    return (run, model, strata, hydraulics, flowtrans, elements)

def parse_facies(facies_list, hydrofacies):
    return [hydrofacies.index(facies) for facies in facies_list]

def get_new_facies_list(facies_list, hydrofacies):
    return [hydrofacies[i] for i in facies_list]

def parse_old_strata_contact_model(strata, i):
    mode = strata['ssm_contact']
    cm = {'mode': mode, 'z': strata['ssm_top'][i]}
    if mode.lower() == 'flat':
        return cm
    elif mode.lower() == 'random':
        cm['var'] = strata['ssm_contact_model'][i][0]
        cm['corlx'] = strata['ssm_contact_model'][i][1]
        cm['corly'] = strata['ssm_contact_model'][i][2]
        return cm
    else:
        raise ValueError('Unknown contact type in strata section: ' + mode)

def parse_old_elem_contact_model(elem):
    mode = elem['contact']
    cm = {'mode': mode}
    if mode.lower() == 'flat':
        return cm
    elif mode.lower() == 'random':
        cm['var'] = elem['contact_model'][0]
        cm['corlx'] = elem['contact_model'][1]
        cm['corly'] = elem['contact_model'][2]
        return cm
    else:
        raise ValueError('Unknown contact type in strata section: ' + mode)

def parse_deprecated_inifile(p):
    import warnings
    print()
    warnings.warn('You seem to be using the old ini-file format. We strongly recommend to use the new format as described in our documentation.', DeprecationWarning)
    print('------- Warning: You are using the old ini-file format ----------------------')
    print('We strongly recommend to use the new format as described in the documentation')
    print('-----------------------------------------------------------------------------')
    print()
    sections = p.sections()
    section_parser = {}
    must_haves = ['run', 'model', 'strata', 'hydraulics', 'flowtrans']
    for section in must_haves:
        if section not in sections:
            raise MissingSectionError(section)
    run = Section('run', old_options['run']).parse(dict(p['run']))
    del sections[sections.index('run')]
    model = Section('model', old_options['model']).parse(dict(p['model']))
    del sections[sections.index('model')]
    if model['dy'] == None:
        model['dy'] = model['dx']
    if model['dz'] == None:
        model['dz'] = model['dx']
    strata = Section('strata', old_options['strata']).parse(dict(p['strata']))
    del sections[sections.index('strata')]
    hydraulics = Section('hydraulics', old_options['hydraulics']).parse(dict(p['hydraulics']))
    del sections[sections.index('hydraulics')]
    flowtrans = Section('flowtrans', old_options['flowtrans']).parse(dict(p['flowtrans']))
    del sections[sections.index('flowtrans')]
    elements = {}
    for section in sections:
        dictionary = dict(p[section])
        assert_exists('geometry', dictionary, section)
        geometry = dictionary['geometry']
        if geometry not in ['trunc_ellip', 'ext_par', 'sheet']:
            raise ValueError('Invalid geometry: ' + geometry + ' in section ' + section)
        elements[section] = Section(section, old_options[geometry]).parse(dict(p[section]))
    return (run, model, strata, hydraulics, flowtrans, elements)

def set_up_directories(run, inifile, overwrite_old_output=None):
    if inifile == 0:
        import tempfile
        run['rundir'] = pathlib.Path(tempfile.mkdtemp())
        return
    p = cp.ConfigParser()
    try:
        p.read(inifile, encoding='utf-8')
    except cp.MissingSectionHeaderError:
        p.read(inifile, encoding='utf-8-sig')
    run['modeldir'].mkdir(parents=True, exist_ok=True)
    if overwrite_old_output is None:
        overwrite_old_output = run['overwrite_old_output']
    if run['rundir'].exists():
        if overwrite_old_output is True:
            for f in os.listdir(run['rundir']):
                path = os.path.join(run['rundir'], f)
                path = run['rundir'] / f
                if path.is_file():
                    path.unlink()
                elif path.is_dir():
                    shutil.rmtree(path)
        else:
            raise FileExistsError("Run directory already exists and overwrite flag is set to 'false'. Either change the runname, or change the overwrite flag ('overwrite_old_output') in the config file or run hyvr with --overwrite.")
    else:
        run['rundir'].mkdir(parents=True, exist_ok=True)
    backup_file = run['rundir'] / (run['runname'] + '_autogenerated_backup.ini')
    with open(backup_file, 'w') as f:
        p.write(f)
