import sys
import numpy as np
import time
import linecache
import os
import errno
' HYVR-specific utilities'

def print_to_stdout(*args):
    print(time.strftime('%d-%m %H:%M:%S', time.localtime(time.time())) + ':', *args)

def get_alternating_facies(num_facies, type_params):
    facies = np.zeros(num_facies, dtype=np.int32)
    facies[0] = np.random.choice(type_params['facies'])
    if type_params['altfacies'] is not None:
        for i in range(1, num_facies):
            fac_idx = type_params['facies'].index(facies[i - 1])
            facies[i] = np.random.choice(type_params['altfacies'][fac_idx])
    else:
        for i in range(1, num_facies):
            facies[i] = np.random.choice(type_params['facies'])
    return facies

def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussian'):
    mask_given = selection_mask is not None
    if mask_given:
        if two_dim:
            x_idx, y_idx = np.where(selection_mask)
            min_x_idx = np.min(x_idx)
            max_x_idx = np.max(x_idx)
            min_y_idx = np.min(y_idx)
            max_y_idx = np.max(y_idx)
            rectangular_mask = np.zeros_like(selection_mask)
            rectangular_mask[min_x_idx:max_x_idx + 1, min_y_idx:max_y_idx + 1] = True
            selected_X = grid.X[min_x_idx:max_x_idx + 1, min_y_idx:max_y_idx + 1, 0]
            selected_Y = grid.Y[min_x_idx:max_x_idx + 1, min_y_idx:max_y_idx + 1, 0]
            selected_X_centered = selected_X - (np.min(selected_X) + np.max(selected_X)) / 2
            selected_Y_centered = selected_Y - (np.min(selected_Y) + np.max(selected_Y)) / 2
            selection_mask_small = selection_mask[min_x_idx:max_x_idx + 1, min_y_idx:max_y_idx + 1]
            h_square = (selected_X_centered / corl[0]) ** 2 + (selected_Y_centered / corl[1]) ** 2
        else:
            x_idx, y_idx, z_idx = np.where(selection_mask)
            min_x_idx = np.min(x_idx)
            max_x_idx = np.max(x_idx)
            min_y_idx = np.min(y_idx)
            max_y_idx = np.max(y_idx)
            max_z_idx = np.max(z_idx)
            min_z_idx = np.min(z_idx)
            rectangular_mask = np.zeros_like(selection_mask)
            rectangular_mask[min_x_idx:max_x_idx + 1, min_y_idx:max_y_idx + 1, min_z_idx:max_z_idx + 1] = True
            selected_X = grid.X[min_x_idx:max_x_idx + 1, min_y_idx:max_y_idx + 1, min_z_idx:max_z_idx + 1]
            selected_Y = grid.Y[min_x_idx:max_x_idx + 1, min_y_idx:max_y_idx + 1, min_z_idx:max_z_idx + 1]
            selected_Z = grid.Z[min_x_idx:max_x_idx + 1, min_y_idx:max_y_idx + 1, min_z_idx:max_z_idx + 1]
            selected_X_centered = selected_X - (np.min(selected_X) + np.max(selected_X)) / 2
            selected_Y_centered = selected_Y - (np.min(selected_Y) + np.max(selected_Y)) / 2
            selected_Z_centered = selected_Z - (np.min(selected_Z) + np.max(selected_Z)) / 2
            selection_mask_small = selection_mask[min_x_idx:max_x_idx + 1, min_y_idx:max_y_idx + 1, min_z_idx:max_z_idx + 1]
            h_square = (selected_X_centered / corl[0]) ** 2 + (selected_Y_centered / corl[1]) ** 2 + (selected_Z_centered / corl[2]) ** 2
    elif two_dim:
        h_square = (np.asarray(grid.X_centered[:, :, 0]) / corl[0]) ** 2 + (np.asarray(grid.Y_centered[:, :, 0]) / corl[1]) ** 2
    else:
        h_square = (np.asarray(grid.X_centered) / corl[0]) ** 2 + (np.asarray(grid.Y_centered) / corl[1]) ** 2 + (np.asarray(grid.Z_centered) / corl[2]) ** 2
    ntot = h_square.size
    if covmod == 'gaussian':
        ryy = np.exp(-h_square) * var
    elif covmod == 'exp':
        ryy = np.exp(-np.sqrt(h_square)) * var
    else:
        raise ValueError('Invalid covariance model')
    syy = np.fft.fftn(np.fft.fftshift(ryy)) / ntot
    syy = np.abs(syy)
    syy[(0,) * syy.ndim] = 0
    real = np.random.randn(*syy.shape)
    imag = np.random.randn(*syy.shape)
    epsilon = real + 1j * imag
    rand = epsilon * np.sqrt(syy)
    Y = np.real(np.fft.ifftn(rand * ntot))
    if mask_given:
        return Y[selection_mask_small]
    return Y
