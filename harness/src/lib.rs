pub mod props;
