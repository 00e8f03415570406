use crate::io::*;
use ssbh_data::prelude::*;
use ssbh_data::*;
use std::path::Path;

pub fn adj_read(r: &mut Rd) -> Result<AdjData, Box<dyn std::error::Error>> { <AdjData as SsbhData>::read(r) }
pub fn adj_from_file(p: &Path) -> Result<AdjData, Box<dyn std::error::Error>> { <AdjData as SsbhData>::from_file(p) }
pub fn adj_write(x: &AdjData, w: &mut Wr) -> Result<(), <AdjData as SsbhData>::WriteError> { <AdjData as SsbhData>::write(x, w) }
pub fn adj_write_to_file(x: &AdjData, p: &Path) -> Result<(), <AdjData as SsbhData>::WriteError> { <AdjData as SsbhData>::write_to_file(x, p) }
pub fn anim_read(r: &mut Rd) -> Result<AnimData, Box<dyn std::error::Error>> { <AnimData as SsbhData>::read(r) }
pub fn anim_from_file(p: &Path) -> Result<AnimData, Box<dyn std::error::Error>> { <AnimData as SsbhData>::from_file(p) }
pub fn anim_write(x: &AnimData, w: &mut Wr) -> Result<(), <AnimData as SsbhData>::WriteError> { <AnimData as SsbhData>::write(x, w) }
pub fn anim_write_to_file(x: &AnimData, p: &Path) -> Result<(), <AnimData as SsbhData>::WriteError> { <AnimData as SsbhData>::write_to_file(x, p) }
pub fn matl_read(r: &mut Rd) -> Result<MatlData, Box<dyn std::error::Error>> { <MatlData as SsbhData>::read(r) }
pub fn matl_from_file(p: &Path) -> Result<MatlData, Box<dyn std::error::Error>> { <MatlData as SsbhData>::from_file(p) }
pub fn matl_write(x: &MatlData, w: &mut Wr) -> Result<(), <MatlData as SsbhData>::WriteError> { <MatlData as SsbhData>::write(x, w) }
pub fn matl_write_to_file(x: &MatlData, p: &Path) -> Result<(), <MatlData as SsbhData>::WriteError> { <MatlData as SsbhData>::write_to_file(x, p) }
pub fn mesh_read(r: &mut Rd) -> Result<MeshData, Box<dyn std::error::Error>> { <MeshData as SsbhData>::read(r) }
pub fn mesh_from_file(p: &Path) -> Result<MeshData, Box<dyn std::error::Error>> { <MeshData as SsbhData>::from_file(p) }
pub fn mesh_write(x: &MeshData, w: &mut Wr) -> Result<(), <MeshData as SsbhData>::WriteError> { <MeshData as SsbhData>::write(x, w) }
pub fn mesh_write_to_file(x: &MeshData, p: &Path) -> Result<(), <MeshData as SsbhData>::WriteError> { <MeshData as SsbhData>::write_to_file(x, p) }
pub fn meshex_read(r: &mut Rd) -> Result<MeshExData, Box<dyn std::error::Error>> { <MeshExData as SsbhData>::read(r) }
pub fn meshex_from_file(p: &Path) -> Result<MeshExData, Box<dyn std::error::Error>> { <MeshExData as SsbhData>::from_file(p) }
pub fn meshex_write(x: &MeshExData, w: &mut Wr) -> Result<(), <MeshExData as SsbhData>::WriteError> { <MeshExData as SsbhData>::write(x, w) }
pub fn meshex_write_to_file(x: &MeshExData, p: &Path) -> Result<(), <MeshExData as SsbhData>::WriteError> { <MeshExData as SsbhData>::write_to_file(x, p) }
pub fn modl_read(r: &mut Rd) -> Result<ModlData, Box<dyn std::error::Error>> { <ModlData as SsbhData>::read(r) }
pub fn modl_from_file(p: &Path) -> Result<ModlData, Box<dyn std::error::Error>> { <ModlData as SsbhData>::from_file(p) }
pub fn modl_write(x: &ModlData, w: &mut Wr) -> Result<(), <ModlData as SsbhData>::WriteError> { <ModlData as SsbhData>::write(x, w) }
pub fn modl_write_to_file(x: &ModlData, p: &Path) -> Result<(), <ModlData as SsbhData>::WriteError> { <ModlData as SsbhData>::write_to_file(x, p) }
pub fn hlpb_read(r: &mut Rd) -> Result<HlpbData, Box<dyn std::error::Error>> { <HlpbData as SsbhData>::read(r) }
pub fn hlpb_from_file(p: &Path) -> Result<HlpbData, Box<dyn std::error::Error>> { <HlpbData as SsbhData>::from_file(p) }
pub fn hlpb_write(x: &HlpbData, w: &mut Wr) -> Result<(), <HlpbData as SsbhData>::WriteError> { <HlpbData as SsbhData>::write(x, w) }
pub fn hlpb_write_to_file(x: &HlpbData, p: &Path) -> Result<(), <HlpbData as SsbhData>::WriteError> { <HlpbData as SsbhData>::write_to_file(x, p) }
pub fn skel_read(r: &mut Rd) -> Result<SkelData, Box<dyn std::error::Error>> { <SkelData as SsbhData>::read(r) }
pub fn skel_from_file(p: &Path) -> Result<SkelData, Box<dyn std::error::Error>> { <SkelData as SsbhData>::from_file(p) }
pub fn skel_write(x: &SkelData, w: &mut Wr) -> Result<(), <SkelData as SsbhData>::WriteError> { <SkelData as SsbhData>::write(x, w) }
pub fn skel_write_to_file(x: &SkelData, p: &Path) -> Result<(), <SkelData as SsbhData>::WriteError> { <SkelData as SsbhData>::write_to_file(x, p) }
pub fn shdr_read(r: &mut Rd) -> Result<ShdrData, Box<dyn std::error::Error>> { ShdrData::read(r) }
pub fn shdr_from_file(p: &Path) -> Result<ShdrData, Box<dyn std::error::Error>> { ShdrData::from_file(p) }
pub fn shdr_meta_read(r: &mut Rd) -> Result<ssbh_data::shdr_data::MetaData, Box<dyn std::error::Error>> { ssbh_data::shdr_data::MetaData::read(r) }
pub fn shdr_meta_from_file(p: &Path) -> Result<ssbh_data::shdr_data::MetaData, Box<dyn std::error::Error>> { ssbh_data::shdr_data::MetaData::from_file(p) }
