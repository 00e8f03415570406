use ssbh_lib::prelude::*;
use ssbh_data::prelude::*;
use ssbh_data::*;

macro_rules! owned {
    ($($name:ident $data:ty, $file:ty;)*) => {
        $(pub fn $name(x: $data) -> Result<$file, <$file as TryFrom<$data>>::Error> { <$file>::try_from(x) })*
    };
}

owned! {
    hlpb_owned HlpbData, Hlpb;
    modl_owned ModlData, Modl;
    matl_owned MatlData, Matl;
    skel_owned SkelData, Skel;
    mesh_owned MeshData, Mesh;
    anim_owned AnimData, Anim;
    meshex_owned MeshExData, MeshEx;
    adj_owned AdjData, Adj;
}
