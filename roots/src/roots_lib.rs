use crate::io::*;
use ssbh_lib::formats::{adj::*, anim::*, hlpb::*, matl::*, mesh::*, meshex::*, modl::*, nlst::*, nrpd::*, nufx::*, shdr::*, skel::*};
use ssbh_lib::*;
use std::path::Path;

pub fn hlpb_read(r: &mut Rd) -> Result<ssbh_lib::formats::hlpb::Hlpb, ssbh_lib::ReadSsbhError> { <ssbh_lib::formats::hlpb::Hlpb>::read(r) }
pub fn hlpb_from_file(p: &Path) -> Result<ssbh_lib::formats::hlpb::Hlpb, ssbh_lib::ReadSsbhError> { <ssbh_lib::formats::hlpb::Hlpb>::from_file(p) }
pub fn hlpb_write(x: &ssbh_lib::formats::hlpb::Hlpb, w: &mut Wr) -> std::io::Result<()> { x.write(w) }
pub fn hlpb_write_to_file(x: &ssbh_lib::formats::hlpb::Hlpb, p: &Path) -> std::io::Result<()> { x.write_to_file(p) }
pub fn hlpb_version(x: &ssbh_lib::formats::hlpb::Hlpb) -> (u16, u16) { ssbh_lib::Version::major_minor_version(x) }
pub fn matl_read(r: &mut Rd) -> Result<ssbh_lib::formats::matl::Matl, ssbh_lib::ReadSsbhError> { <ssbh_lib::formats::matl::Matl>::read(r) }
pub fn matl_from_file(p: &Path) -> Result<ssbh_lib::formats::matl::Matl, ssbh_lib::ReadSsbhError> { <ssbh_lib::formats::matl::Matl>::from_file(p) }
pub fn matl_write(x: &ssbh_lib::formats::matl::Matl, w: &mut Wr) -> std::io::Result<()> { x.write(w) }
pub fn matl_write_to_file(x: &ssbh_lib::formats::matl::Matl, p: &Path) -> std::io::Result<()> { x.write_to_file(p) }
pub fn matl_version(x: &ssbh_lib::formats::matl::Matl) -> (u16, u16) { ssbh_lib::Version::major_minor_version(x) }
pub fn modl_read(r: &mut Rd) -> Result<ssbh_lib::formats::modl::Modl, ssbh_lib::ReadSsbhError> { <ssbh_lib::formats::modl::Modl>::read(r) }
pub fn modl_from_file(p: &Path) -> Result<ssbh_lib::formats::modl::Modl, ssbh_lib::ReadSsbhError> { <ssbh_lib::formats::modl::Modl>::from_file(p) }
pub fn modl_write(x: &ssbh_lib::formats::modl::Modl, w: &mut Wr) -> std::io::Result<()> { x.write(w) }
pub fn modl_write_to_file(x: &ssbh_lib::formats::modl::Modl, p: &Path) -> std::io::Result<()> { x.write_to_file(p) }
pub fn modl_version(x: &ssbh_lib::formats::modl::Modl) -> (u16, u16) { ssbh_lib::Version::major_minor_version(x) }
pub fn mesh_read(r: &mut Rd) -> Result<ssbh_lib::formats::mesh::Mesh, ssbh_lib::ReadSsbhError> { <ssbh_lib::formats::mesh::Mesh>::read(r) }
pub fn mesh_from_file(p: &Path) -> Result<ssbh_lib::formats::mesh::Mesh, ssbh_lib::ReadSsbhError> { <ssbh_lib::formats::mesh::Mesh>::from_file(p) }
pub fn mesh_write(x: &ssbh_lib::formats::mesh::Mesh, w: &mut Wr) -> std::io::Result<()> { x.write(w) }
pub fn mesh_write_to_file(x: &ssbh_lib::formats::mesh::Mesh, p: &Path) -> std::io::Result<()> { x.write_to_file(p) }
pub fn mesh_version(x: &ssbh_lib::formats::mesh::Mesh) -> (u16, u16) { ssbh_lib::Version::major_minor_version(x) }
pub fn skel_read(r: &mut Rd) -> Result<ssbh_lib::formats::skel::Skel, ssbh_lib::ReadSsbhError> { <ssbh_lib::formats::skel::Skel>::read(r) }
pub fn skel_from_file(p: &Path) -> Result<ssbh_lib::formats::skel::Skel, ssbh_lib::ReadSsbhError> { <ssbh_lib::formats::skel::Skel>::from_file(p) }
pub fn skel_write(x: &ssbh_lib::formats::skel::Skel, w: &mut Wr) -> std::io::Result<()> { x.write(w) }
pub fn skel_write_to_file(x: &ssbh_lib::formats::skel::Skel, p: &Path) -> std::io::Result<()> { x.write_to_file(p) }
pub fn skel_version(x: &ssbh_lib::formats::skel::Skel) -> (u16, u16) { ssbh_lib::Version::major_minor_version(x) }
pub fn anim_read(r: &mut Rd) -> Result<ssbh_lib::formats::anim::Anim, ssbh_lib::ReadSsbhError> { <ssbh_lib::formats::anim::Anim>::read(r) }
pub fn anim_from_file(p: &Path) -> Result<ssbh_lib::formats::anim::Anim, ssbh_lib::ReadSsbhError> { <ssbh_lib::formats::anim::Anim>::from_file(p) }
pub fn anim_write(x: &ssbh_lib::formats::anim::Anim, w: &mut Wr) -> std::io::Result<()> { x.write(w) }
pub fn anim_write_to_file(x: &ssbh_lib::formats::anim::Anim, p: &Path) -> std::io::Result<()> { x.write_to_file(p) }
pub fn anim_version(x: &ssbh_lib::formats::anim::Anim) -> (u16, u16) { ssbh_lib::Version::major_minor_version(x) }
pub fn nlst_read(r: &mut Rd) -> Result<ssbh_lib::formats::nlst::Nlst, ssbh_lib::ReadSsbhError> { <ssbh_lib::formats::nlst::Nlst>::read(r) }
pub fn nlst_from_file(p: &Path) -> Result<ssbh_lib::formats::nlst::Nlst, ssbh_lib::ReadSsbhError> { <ssbh_lib::formats::nlst::Nlst>::from_file(p) }
pub fn nlst_write(x: &ssbh_lib::formats::nlst::Nlst, w: &mut Wr) -> std::io::Result<()> { x.write(w) }
pub fn nlst_write_to_file(x: &ssbh_lib::formats::nlst::Nlst, p: &Path) -> std::io::Result<()> { x.write_to_file(p) }
pub fn nlst_version(x: &ssbh_lib::formats::nlst::Nlst) -> (u16, u16) { ssbh_lib::Version::major_minor_version(x) }
pub fn nrpd_read(r: &mut Rd) -> Result<ssbh_lib::formats::nrpd::Nrpd, ssbh_lib::ReadSsbhError> { <ssbh_lib::formats::nrpd::Nrpd>::read(r) }
pub fn nrpd_from_file(p: &Path) -> Result<ssbh_lib::formats::nrpd::Nrpd, ssbh_lib::ReadSsbhError> { <ssbh_lib::formats::nrpd::Nrpd>::from_file(p) }
pub fn nrpd_write(x: &ssbh_lib::formats::nrpd::Nrpd, w: &mut Wr) -> std::io::Result<()> { x.write(w) }
pub fn nrpd_write_to_file(x: &ssbh_lib::formats::nrpd::Nrpd, p: &Path) -> std::io::Result<()> { x.write_to_file(p) }
pub fn nrpd_version(x: &ssbh_lib::formats::nrpd::Nrpd) -> (u16, u16) { ssbh_lib::Version::major_minor_version(x) }
pub fn nufx_read(r: &mut Rd) -> Result<ssbh_lib::formats::nufx::Nufx, ssbh_lib::ReadSsbhError> { <ssbh_lib::formats::nufx::Nufx>::read(r) }
pub fn nufx_from_file(p: &Path) -> Result<ssbh_lib::formats::nufx::Nufx, ssbh_lib::ReadSsbhError> { <ssbh_lib::formats::nufx::Nufx>::from_file(p) }
pub fn nufx_write(x: &ssbh_lib::formats::nufx::Nufx, w: &mut Wr) -> std::io::Result<()> { x.write(w) }
pub fn nufx_write_to_file(x: &ssbh_lib::formats::nufx::Nufx, p: &Path) -> std::io::Result<()> { x.write_to_file(p) }
pub fn nufx_version(x: &ssbh_lib::formats::nufx::Nufx) -> (u16, u16) { ssbh_lib::Version::major_minor_version(x) }
pub fn shdr_read(r: &mut Rd) -> Result<ssbh_lib::formats::shdr::Shdr, ssbh_lib::ReadSsbhError> { <ssbh_lib::formats::shdr::Shdr>::read(r) }
pub fn shdr_from_file(p: &Path) -> Result<ssbh_lib::formats::shdr::Shdr, ssbh_lib::ReadSsbhError> { <ssbh_lib::formats::shdr::Shdr>::from_file(p) }
pub fn shdr_write(x: &ssbh_lib::formats::shdr::Shdr, w: &mut Wr) -> std::io::Result<()> { x.write(w) }
pub fn shdr_write_to_file(x: &ssbh_lib::formats::shdr::Shdr, p: &Path) -> std::io::Result<()> { x.write_to_file(p) }
pub fn shdr_version(x: &ssbh_lib::formats::shdr::Shdr) -> (u16, u16) { ssbh_lib::Version::major_minor_version(x) }
pub fn meshex_read(r: &mut Rd) -> Result<ssbh_lib::formats::meshex::MeshEx, Box<dyn std::error::Error>> { <ssbh_lib::formats::meshex::MeshEx>::read(r) }
pub fn meshex_from_file(p: &Path) -> Result<ssbh_lib::formats::meshex::MeshEx, Box<dyn std::error::Error>> { <ssbh_lib::formats::meshex::MeshEx>::from_file(p) }
pub fn meshex_write(x: &ssbh_lib::formats::meshex::MeshEx, w: &mut Wr) -> std::io::Result<()> { x.write(w) }
pub fn meshex_write_to_file(x: &ssbh_lib::formats::meshex::MeshEx, p: &Path) -> std::io::Result<()> { x.write_to_file(p) }
pub fn adj_read(r: &mut Rd) -> Result<ssbh_lib::formats::adj::Adj, Box<dyn std::error::Error>> { <ssbh_lib::formats::adj::Adj>::read(r) }
pub fn adj_from_file(p: &Path) -> Result<ssbh_lib::formats::adj::Adj, Box<dyn std::error::Error>> { <ssbh_lib::formats::adj::Adj>::from_file(p) }
pub fn adj_write(x: &ssbh_lib::formats::adj::Adj, w: &mut Wr) -> std::io::Result<()> { x.write(w) }
pub fn adj_write_to_file(x: &ssbh_lib::formats::adj::Adj, p: &Path) -> std::io::Result<()> { x.write_to_file(p) }
pub fn ssbhfile_read(r: &mut Rd) -> Result<ssbh_lib::SsbhFile, ssbh_lib::ReadSsbhError> { <ssbh_lib::SsbhFile>::read(r) }
pub fn ssbhfile_from_file(p: &Path) -> Result<ssbh_lib::SsbhFile, ssbh_lib::ReadSsbhError> { <ssbh_lib::SsbhFile>::from_file(p) }
pub fn ssbhfile_write(x: &ssbh_lib::SsbhFile, w: &mut Wr) -> std::io::Result<()> { x.write(w) }
pub fn ssbhfile_write_to_file(x: &ssbh_lib::SsbhFile, p: &Path) -> std::io::Result<()> { x.write_to_file(p) }
