def extract_h_dict(*a): raise NotImplementedError
def extract_U_dict2(*a): raise NotImplementedError
def extract_U_dict4(*a): raise NotImplementedError
def dict_to_matrix(*a): raise NotImplementedError
